From e6a50d454343a0c507bdd5a4c2607cbb0ccfc515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:30 +0000
Subject: [PATCH 01/50] fix: posix timer: delete the system timer even if its
 id is 0

0 is a valid timer_t (it is the first one given by glibc), so the timer was
never deleted and kept signalling a freed structure.
---
 src/pomp_timer.h       | 1 +
 src/pomp_timer_posix.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomp_timer.h b/src/pomp_timer.h
index 1622336..5712c67 100644
--- a/src/pomp_timer.h
+++ b/src/pomp_timer.h
@@ -43,6 +43,7 @@ struct pomp_timer {
 
 #ifdef POMP_HAVE_TIMER_POSIX
 	timer_t			id;		/**< Timer id */
+	int			idvalid;	/**< Timer id is valid */
 	int			pipefds[2];	/**< Notification pipes */
 #endif /* POMP_HAVE_TIMER_POSIX */
 
diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 2147548..239190e 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -92,7 +92,7 @@ static int pomp_timer_posix_destroy(struct pomp_timer *timer)
 	/* Free resources */
 	/* from 'timer_delete' man page : The treatment of any pending signal
 	 * generated by the deleted timer is unspecified */
-	if (timer->id != 0)
+	if (timer->idvalid)
 		timer_delete(timer->id);
 	if (timer->pipefds[0] >= 0) {
 		pomp_loop_remove(timer->loop, timer->pipefds[0]);
@@ -137,6 +137,7 @@ static struct pomp_timer *pomp_timer_posix_new(struct pomp_loop *loop,
 		POMP_LOG_ERRNO("timer_create");
 		goto error;
 	}
+	timer->idvalid = 1;
 
 	/* Create pipe for notification */
 	res = pipe(timer->pipefds);
-- 
2.43.0


From de0e4ba3b898604561a76a50dc276e1104114844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:30 +0000
Subject: [PATCH 02/50] fix: posix timer: forget pending expirations when set
 again or cleared

An expiration already written in the notification pipe was still notified
after the timer was cleared or set again, and the callback was called even if
nothing could be read from the pipe.
---
 src/pomp_timer_posix.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pomp_timer_posix.c b/src/pomp_timer_posix.c
index 239190e..f25e1ff 100644
--- a/src/pomp_timer_posix.c
+++ b/src/pomp_timer_posix.c
@@ -78,6 +78,10 @@ static void pomp_timer_posix_cb(int fd, uint32_t revents, void *userdata)
 		res = read(timer->pipefds[0], &dummy, sizeof(dummy));
 	} while (res < 0 && errno == EINTR);
 
+	/* Nothing to notify if timer was set or cleared in the meantime */
+	if (res <= 0)
+		return;
+
 	/* Notify callback */
 	(*timer->cb)(timer, timer->userdata);
 }
@@ -187,9 +191,24 @@ static int pomp_timer_posix_set(struct pomp_timer *timer, uint32_t delay,
 		uint32_t period)
 {
 	int res = 0;
+	ssize_t readlen = 0;
+	uint8_t dummy[16];
 	struct itimerspec newval, oldval;
 	POMP_RETURN_ERR_IF_FAILED(timer != NULL, -EINVAL);
 
+	/* Disarm timer first, so that nothing more is notified for the previous
+	 * setting, then drop expirations already notified (as done by timerfd
+	 * when it is set again) */
+	memset(&newval, 0, sizeof(newval));
+	if (timer_settime(timer->id, 0, &newval, &oldval) < 0) {
+		res = -errno;
+		POMP_LOG_ERRNO("timer_settime");
+		return res;
+	}
+	do {
+		readlen = read(timer->pipefds[0], dummy, sizeof(dummy));
+	} while (readlen > 0 || (readlen < 0 && errno == EINTR));
+
 	/* Setup timeout */
 	newval.it_interval.tv_sec = (time_t)(period / 1000);
 	newval.it_interval.tv_nsec = (long int)((period % 1000) * 1000 * 1000);
-- 
2.43.0


From 43a6c51bc15bcab4045fe7390e1e1f93637fca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:37 +0000
Subject: [PATCH 03/50] fix: conn: do not free the read buffer in use when
 changing its length

---
 src/pomp_conn.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index fabce02..b910fae 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -731,8 +731,10 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 		return;
 
 	do {
-		/* If current read buffer is shared, unref it */
-		if (conn->readbuf != NULL && conn->readbuf->refcount > 1) {
+		/* If current read buffer is shared, or has not the requested
+		 * length, unref it */
+		if (conn->readbuf != NULL && (conn->readbuf->refcount > 1 ||
+		    conn->readbuf->capacity != conn->readbuf_len)) {
 			pomp_buffer_unref(conn->readbuf);
 			conn->readbuf = NULL;
 		}
@@ -1486,13 +1488,9 @@ int pomp_conn_set_read_buffer_len(struct pomp_conn *conn,
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len != 0, -EINVAL);
 
-	/* If current read buffer has already been allocated, unref it so that
-	 * it will be reallocated with the correct length when needed. */
-	if (conn->readbuf != NULL) {
-		pomp_buffer_unref(conn->readbuf);
-		conn->readbuf = NULL;
-	}
-
+	/* If current read buffer has already been allocated, it may be in use
+	 * if we are called from a read callback. It will be reallocated with
+	 * the correct length before the next read. */
 	conn->readbuf_len = len;
 	return 0;
 }
-- 
2.43.0


From e7d5dc597febd10b79340cd42ad23435f04636ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:55 +0000
Subject: [PATCH 04/50] fix: prot: do not skip a header that starts within a
 mismatching one

---
 src/pomp_prot.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 4e891ba..baad34f 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -119,7 +119,14 @@ static void pomp_prot_check_magic(struct pomp_prot *prot, int idx, int val,
 	if (prot->headerbuf[idx] != val) {
 		POMP_LOGW("Bad header magic %d : 0x%02x(0x%02x)",
 			idx, prot->headerbuf[idx], val);
-		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+		if (prot->headerbuf[idx] == POMP_PROT_HEADER_MAGIC_0) {
+			/* This byte can be the start of a valid header */
+			prot->headerbuf[0] = POMP_PROT_HEADER_MAGIC_0;
+			prot->offheader = 1;
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_1;
+		} else {
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+		}
 	} else {
 		prot->state = state;
 	}
-- 
2.43.0


From 83cb340df0f3d46d90c3d507920f07e5c1336219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 05/50] fix: ctx: try again later when a deferred start fails

The reconnection timer was cleared before calling the start function and
only re-armed for a few errors, so any other one (no more descriptors or
memory, address in use...) left the context idle forever.
---
 src/pomp_ctx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index 6c793c7..b5543b4 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -861,6 +861,8 @@ static int dgram_stop(struct pomp_ctx *ctx)
  */
 static void timer_cb(struct pomp_timer *timer, void *userdata)
 {
+	int res = 0;
+	uint32_t delay = 0;
 	struct pomp_ctx *ctx = userdata;
 
 	/* Clear timer */
@@ -869,17 +871,24 @@ static void timer_cb(struct pomp_timer *timer, void *userdata)
 	/* Try reconnecting the client/server */
 	switch (ctx->type) {
 	case POMP_CTX_TYPE_SERVER:
-		server_start(ctx);
+		res = server_start(ctx);
+		delay = POMP_SERVER_RECONNECT_DELAY;
 		break;
 
 	case POMP_CTX_TYPE_CLIENT:
-		client_start(ctx);
+		res = client_start(ctx);
+		delay = POMP_CLIENT_RECONNECT_DELAY;
 		break;
 
 	case POMP_CTX_TYPE_DGRAM:
-		dgram_start(ctx);
+		res = dgram_start(ctx);
+		delay = POMP_DGRAM_RECONNECT_DELAY;
 		break;
 	}
+
+	/* There is nobody to report the error to, try again later */
+	if (res < 0)
+		pomp_timer_set(ctx->timer, delay);
 }
 
 /*
-- 
2.43.0


From 02b3a419146461460b13de17232b4a4dc563094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 06/50] fix: ctx: allow stop to be retried when deferring it
 fails

If the idle callback could not be registered the context remained in the
stopping state forever: later stops did nothing and it could neither be
restarted nor destroyed.
---
 src/pomp_ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index b5543b4..b7d32b3 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -1192,6 +1192,8 @@ static void pomp_ctx_stop_idle(void *userdata)
  */
 int pomp_ctx_stop(struct pomp_ctx *ctx)
 {
+	int res = 0;
+
 	POMP_RETURN_ERR_IF_FAILED(ctx != NULL, -EINVAL);
 	if (ctx->addr == NULL || ctx->stopping)
 		return 0;
@@ -1201,7 +1203,10 @@ int pomp_ctx_stop(struct pomp_ctx *ctx)
 	/* If currently notifying events/messages, do the stop in idle,
 	 * otherwise do it syncchronously */
 	if (ctx->notifying > 0) {
-		return pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		res = pomp_loop_idle_add(ctx->loop, &pomp_ctx_stop_idle, ctx);
+		if (res < 0)
+			ctx->stopping = 0;
+		return res;
 	} else {
 		pomp_ctx_stop_idle(ctx);
 		return 0;
-- 
2.43.0


From 47a0e42e6510c3f910970a1517b74a99a934cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:48 +0000
Subject: [PATCH 07/50] fix: conn: do not fail a send after part of it has been
 written

If the data was only partially written and the io buffer could not be
allocated, the send was reported as failed while its first bytes were
already in the stream, so the peer lost the framing of next messages.
---
 src/pomp_conn.c | 46 +++++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index b910fae..dd44352 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -1312,9 +1312,7 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 		const struct sockaddr *addr, uint32_t addrlen)
 {
 	int res = 0;
-	size_t off = 0;
 	struct pomp_io_buffer *iobuf = NULL;
-	struct pomp_io_buffer tmpiobuf;
 
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(conn->fd >= 0, -EINVAL);
@@ -1343,46 +1341,36 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 		return -EPERM;
 	}
 
+	/* Allocate the io buffer before writing anything: it will not be
+	 * possible to fail once part of the data has been written */
+	iobuf = pomp_io_buffer_new(buf, 0);
+	if (iobuf == NULL)
+		return -ENOMEM;
+	if (conn->isdgram) {
+		memcpy(&iobuf->addr, addr, addrlen);
+		iobuf->addrlen = addrlen;
+	}
+
 	/* Try to send now if possible */
 	if (conn->headbuf == NULL) {
-		/* Prepare a local temp io buffer */
-		memset(&tmpiobuf, 0, sizeof(tmpiobuf));
-		tmpiobuf.buf = buf;
-		tmpiobuf.len = buf->len;
-		tmpiobuf.off = 0;
-		tmpiobuf.next = NULL;
-		if (conn->isdgram) {
-			memcpy(&tmpiobuf.addr, addr, addrlen);
-			tmpiobuf.addrlen = addrlen;
-		}
-
 		/* Write it */
-		res = pomp_io_buffer_write(&tmpiobuf, conn);
+		res = pomp_io_buffer_write(iobuf, conn);
 		if (res < 0) {
-			if (!POMP_CONN_WOULD_BLOCK(-res))
+			if (!POMP_CONN_WOULD_BLOCK(-res)) {
+				pomp_io_buffer_destroy(iobuf);
 				return res;
-		} else if (tmpiobuf.off == tmpiobuf.len) {
+			}
+		} else if (iobuf->off == iobuf->len) {
 			/* If everything was written, nothing more to do */
-			pomp_conn_add_idle_cb(conn, conn->ctx,
-					tmpiobuf.buf,
+			pomp_conn_add_idle_cb(conn, conn->ctx, buf,
 					POMP_SEND_STATUS_OK |
 					POMP_SEND_STATUS_QUEUE_EMPTY);
+			pomp_io_buffer_destroy(iobuf);
 			return 0;
-
-		} else {
-			off = tmpiobuf.off;
 		}
 	}
 
 	/* Need to queue the buffer */
-	iobuf = pomp_io_buffer_new(buf, off);
-	if (iobuf == NULL)
-		return -ENOMEM;
-	if (conn->isdgram) {
-		memcpy(&iobuf->addr, addr, addrlen);
-		iobuf->addrlen = addrlen;
-	}
-
 	if (conn->tailbuf == NULL) {
 		/* No previous pending buffer */
 		POMP_LOGI("conn=%p fd=%d enter async mode", conn, conn->fd);
-- 
2.43.0


From 443966ae80597fe3fecf55a3c1c20dae17c8376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 08/50] fix: conn: do not lose the completion of a send if
 memory is exhausted

The completion of an accepted send was silently dropped if its idle
callback could not be allocated. Prepare it before writing so the send is
refused, or continued later, instead.
---
 src/pomp_conn.c | 77 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index dd44352..8e6472b 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -896,27 +896,29 @@ static int clear_pending_callbacks(struct pomp_conn *conn)
 	return 0;
 }
 
-/** Add an idle send callback data on the top of the tail.
+/** Prepare an idle send callback data. Done before writing the buffer so that
+ * nothing can fail once it has been written.
  * @param conn : connection
  * @param ctx : context
- * @param buf : buffer sent
- * @param status : send status
+ * @param buf : buffer that will be sent
+ * @param ret_obj : will receive the data object (NULL if no send callback set)
  * @return 0 in case of success, negative errno value in case of error.
  */
-static int pomp_conn_add_idle_cb(struct pomp_conn *conn, struct pomp_ctx *ctx,
-		struct pomp_buffer *buf, uint32_t status)
+static int pomp_conn_prepare_idle_cb(struct pomp_conn *conn,
+		struct pomp_ctx *ctx, struct pomp_buffer *buf,
+		struct idle_sendcb_data **ret_obj)
 {
 	int res = 0;
 	struct idle_sendcb_data *icb_data = NULL;
 
-	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
+	*ret_obj = NULL;
 
 	/* check if the send callback is set */
 	res = pomp_ctx_sendcb_is_set(ctx);
 	if (!res)
 		return 0;
 
-	res = idle_sendcb_data_create(conn, ctx, buf, status, &icb_data);
+	res = idle_sendcb_data_create(conn, ctx, buf, 0, &icb_data);
 	if (res < 0)
 		return res;
 
@@ -926,6 +928,36 @@ static int pomp_conn_add_idle_cb(struct pomp_conn *conn, struct pomp_ctx *ctx,
 		return res;
 	}
 
+	*ret_obj = icb_data;
+	return 0;
+}
+
+/** Cancel an idle send callback data that has been prepared.
+ * @param conn : connection
+ * @param icb_data : data object (can be NULL)
+ */
+static void pomp_conn_cancel_idle_cb(struct pomp_conn *conn,
+		struct idle_sendcb_data *icb_data)
+{
+	if (icb_data == NULL)
+		return;
+	pomp_loop_idle_remove(conn->loop, &pomp_idle_cb, icb_data);
+	idle_sendcb_data_destroy(icb_data);
+}
+
+/** Add an idle send callback data that has been prepared on the top of the
+ * tail.
+ * @param conn : connection
+ * @param icb_data : data object (can be NULL)
+ * @param status : send status
+ */
+static void pomp_conn_add_idle_cb(struct pomp_conn *conn,
+		struct idle_sendcb_data *icb_data, uint32_t status)
+{
+	if (icb_data == NULL)
+		return;
+	icb_data->status = status;
+
 	/* If first element */
 	if (conn->idlecbs_tail == NULL)
 		conn->idlecbs_tail = icb_data;
@@ -934,8 +966,6 @@ static int pomp_conn_add_idle_cb(struct pomp_conn *conn, struct pomp_ctx *ctx,
 		conn->idlecbs_head->next = icb_data;
 	/* set as last element */
 	conn->idlecbs_head = icb_data;
-
-	return 0;
 }
 
 /**
@@ -948,13 +978,24 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 {
 	int res = 0;
 	struct pomp_io_buffer *iobuf = NULL;
+	struct idle_sendcb_data *icb_data = NULL;
 	uint32_t status = 0;
 
 	/* Write pending buffers */
 	iobuf = conn->headbuf;
 	while (iobuf != NULL) {
+		/* Try again later if completion could not be notified */
+		res = pomp_conn_prepare_idle_cb(conn, conn->ctx, iobuf->buf,
+				&icb_data);
+		if (res < 0)
+			break;
+
 		/* Try to write buffer */
 		res = pomp_io_buffer_write(iobuf, conn);
+		if (res < 0 || iobuf->off != iobuf->len) {
+			pomp_conn_cancel_idle_cb(conn, icb_data);
+			icb_data = NULL;
+		}
 		if (POMP_CONN_WOULD_BLOCK(-res)) {
 			break;
 		} else if (res < 0) {
@@ -973,8 +1014,7 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 			if (conn->headbuf == NULL)
 				status |= POMP_SEND_STATUS_QUEUE_EMPTY;
 
-			pomp_conn_add_idle_cb(conn, conn->ctx, iobuf->buf,
-					status);
+			pomp_conn_add_idle_cb(conn, icb_data, status);
 
 			pomp_io_buffer_destroy(iobuf);
 			iobuf = conn->headbuf;
@@ -1313,6 +1353,7 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 {
 	int res = 0;
 	struct pomp_io_buffer *iobuf = NULL;
+	struct idle_sendcb_data *icb_data = NULL;
 
 	POMP_RETURN_ERR_IF_FAILED(conn != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(conn->fd >= 0, -EINVAL);
@@ -1353,8 +1394,20 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 
 	/* Try to send now if possible */
 	if (conn->headbuf == NULL) {
+		/* Make sure completion can be notified */
+		res = pomp_conn_prepare_idle_cb(conn, conn->ctx, buf,
+				&icb_data);
+		if (res < 0) {
+			pomp_io_buffer_destroy(iobuf);
+			return res;
+		}
+
 		/* Write it */
 		res = pomp_io_buffer_write(iobuf, conn);
+		if (res < 0 || iobuf->off != iobuf->len) {
+			pomp_conn_cancel_idle_cb(conn, icb_data);
+			icb_data = NULL;
+		}
 		if (res < 0) {
 			if (!POMP_CONN_WOULD_BLOCK(-res)) {
 				pomp_io_buffer_destroy(iobuf);
@@ -1362,7 +1415,7 @@ static int pomp_conn_send_buf_internal(struct pomp_conn *conn,
 			}
 		} else if (iobuf->off == iobuf->len) {
 			/* If everything was written, nothing more to do */
-			pomp_conn_add_idle_cb(conn, conn->ctx, buf,
+			pomp_conn_add_idle_cb(conn, icb_data,
 					POMP_SEND_STATUS_OK |
 					POMP_SEND_STATUS_QUEUE_EMPTY);
 			pomp_io_buffer_destroy(iobuf);
-- 
2.43.0


From 8b76e5643e21c5b30f08dab549fd68ddb4bb5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 09/50] fix: prot: allow decoding again after a failed
 allocation

If the buffer of a message could not be allocated, the message structure
was left initialized, which made the initialization of all the next ones
fail.
---
 src/pomp_prot.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index baad34f..21e2d39 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -103,7 +103,12 @@ static int pomp_prot_alloc_msg(struct pomp_prot *prot, uint32_t msgid,
 	res = pomp_msg_init(prot->msg, msgid);
 	if (res < 0)
 		return res;
-	return pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	res = pomp_buffer_ensure_capacity(prot->msg->buf, size);
+
+	/* Cleanup in case of error so the message can be initialized again */
+	if (res < 0)
+		pomp_msg_clear(prot->msg);
+	return res;
 }
 
 /**
-- 
2.43.0


From ebb981f957b4f94a44eee7881ca48488b88ba319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:52 +0000
Subject: [PATCH 10/50] fix: conn: drop the connection when a received message
 cannot be allocated

The message was silently lost and its payload scanned for the next
header, so that bytes of its contents could be taken as messages.
---
 src/pomp_conn.c |  9 +++++++--
 src/pomp_prot.c | 21 ++++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 8e6472b..e3de41a 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -514,8 +514,13 @@ static void pomp_conn_process_read_buf(struct pomp_conn *conn)
 		usedlen = pomp_prot_decode_msg(conn->prot,
 				((const uint8_t *)data) + off,
 				len - off, &msg);
-		if (usedlen < 0)
+		if (usedlen < 0) {
+			/* The message is lost, as well as the position of the
+			 * next one in the stream, finish this connection */
+			if (!conn->isdgram)
+				conn->removeflag = 1;
 			break;
+		}
 		off += (size_t)usedlen;
 
 		/* Notify new received message
@@ -767,7 +772,7 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 			if (!conn->isdgram)
 				conn->removeflag = 1;
 		}
-	} while (res > 0 && !conn->read_suspended);
+	} while (res > 0 && !conn->read_suspended && !conn->removeflag);
 
 	/* Reset peer/local addresses after reading message on dgram sockets */
 	if (conn->isdgram) {
diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 21e2d39..e27bdf9 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -140,12 +140,15 @@ static void pomp_prot_check_magic(struct pomp_prot *prot, int idx, int val,
 /**
  * Decode the header of the message.
  * @param prot : protocol decoder.
+ * @return 0 in case of success, negative errno value if the message can not be
+ * allocated.
  *
  * @remarks in case of error during header decoding or message allocation,
  * the decoder state is reseted.
  */
-static void pomp_prot_decode_header(struct pomp_prot *prot)
+static int pomp_prot_decode_header(struct pomp_prot *prot)
 {
+	int res = 0;
 	uint32_t d = 0;
 
 	/* Decode header inside structure */
@@ -159,8 +162,11 @@ static void pomp_prot_decode_header(struct pomp_prot *prot)
 	if (prot->header.size < POMP_PROT_HEADER_SIZE) {
 		POMP_LOGW("Bad header size : %d", prot->header.size);
 		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
-	} else if (pomp_prot_alloc_msg(prot, prot->header.msgid,
-			prot->header.size) < 0) {
+		return 0;
+	}
+
+	res = pomp_prot_alloc_msg(prot, prot->header.msgid, prot->header.size);
+	if (res < 0) {
 		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
 	} else {
 		/* Copy header in message buffer */
@@ -169,6 +175,7 @@ static void pomp_prot_decode_header(struct pomp_prot *prot)
 				prot->headerbuf, POMP_PROT_HEADER_SIZE);
 		prot->state = POMP_PROT_STATE_PAYLOAD;
 	}
+	return res;
 }
 
 /**
@@ -295,11 +302,13 @@ int pomp_prot_destroy(struct pomp_prot *prot)
  * released either by calling 'pomp_msg_destroy' or 'pomp_prot_release_msg'.
  * Calling 'pomp_prot_release_msg' allows reuse of allocated message structure.
  * @return number of bytes processed. It can be less that input size in which
- * case caller shall call again this function with remaining bytes.
+ * case caller shall call again this function with remaining bytes. In case of
+ * error (message can not be allocated) a negative errno value is returned.
  */
 int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 		size_t len, struct pomp_msg **msg)
 {
+	int res = 0;
 	size_t off = 0;
 
 	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
@@ -347,7 +356,9 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 		case POMP_PROT_STATE_HEADER:
 			copy_header(prot, buf, &off, len);
 			if (prot->offheader == POMP_PROT_HEADER_SIZE)
-				pomp_prot_decode_header(prot);
+				res = pomp_prot_decode_header(prot);
+			if (res < 0)
+				return res;
 			break;
 
 		case POMP_PROT_STATE_PAYLOAD:
-- 
2.43.0


From ff5f2e55d2d1e4dce85c6c49c349e03c44f6af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 11/50] fix: conn: keep descriptors with their message when
 some could not be received

When the control data was truncated (no more descriptors allowed in the
process), the descriptors of the next message were used in place of the
missing ones of the current message.
---
 src/pomp_conn.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index e3de41a..53fa50d 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -379,7 +379,7 @@ static void pomp_conn_rx_fds_clear(struct pomp_conn_rx_fds *rxfds)
 {
 	size_t i = 0;
 	for (i = 0; i < rxfds->count; i++) {
-		if (close(rxfds->table[i]) < 0)
+		if (rxfds->table[i] >= 0 && close(rxfds->table[i]) < 0)
 			POMP_LOG_FD_ERRNO("close", rxfds->table[i]);
 		rxfds->table[i] = -1;
 	}
@@ -710,6 +710,18 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 		}
 	}
 
+	/* If some fds could not be received, register invalid markers instead
+	 * so that the ones of another message are not used in their place */
+	if (!conn->isdgram && (msg.msg_flags & MSG_CTRUNC)) {
+		POMP_LOGE("Some rx fds have been lost");
+		if (need_fd_discard) {
+			pomp_conn_rx_fds_clear(conn->rx_fds_current);
+			pomp_conn_swap_rx_fds(conn);
+		}
+		while (conn->rx_fds_next->count < POMP_CONN_RX_FDS_MAX_COUNT)
+			pomp_conn_rx_fds_add(conn->rx_fds_next, -1);
+	}
+
 	/* If current fd table was empty, swap next/current */
 	if (conn->rx_fds_current->count == 0)
 		pomp_conn_swap_rx_fds(conn);
-- 
2.43.0


From c4437dee45c88b53da341d77c8e082948aab7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:57 +0000
Subject: [PATCH 12/50] fix: do not give a newly registered fd the events of an
 earlier registration

When a callback removes an fd and registers it again (or closes it and
registers a new file that got the same number), the events already collected
for the old registration were given to the callback of the new one.
---
 src/pomp_loop.c       | 1 +
 src/pomp_loop.h       | 2 ++
 src/pomp_loop_linux.c | 7 +++++--
 src/pomp_loop_posix.c | 7 +++++--
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pomp_loop.c b/src/pomp_loop.c
index 97710b4..4d91be4 100644
--- a/src/pomp_loop.c
+++ b/src/pomp_loop.c
@@ -207,6 +207,7 @@ struct pomp_fd *pomp_loop_add_pfd(struct pomp_loop *loop, intptr_t fd,
 	pfd->cb = cb;
 	pfd->userdata = userdata;
 	pfd->next = NULL;
+	pfd->serial = loop->serial;
 
 	/* Add in our own list */
 	pfdi = pomp_loop_index_fd(fd);
diff --git a/src/pomp_loop.h b/src/pomp_loop.h
index f3f4b7b..bf3a797 100644
--- a/src/pomp_loop.h
+++ b/src/pomp_loop.h
@@ -50,6 +50,7 @@ struct pomp_fd {
 	pomp_fd_event_cb_t	cb;		/**< Registered callback */
 	void			*userdata;	/**< Callback user data */
 	struct pomp_fd		*next;		/**< Next structure in list */
+	uint64_t		serial;		/**< Dispatch it was added in */
 
 #ifdef POMP_HAVE_LOOP_WIN32
 	int			nofd;		/**< 1 if fd is a fake fd */
@@ -65,6 +66,7 @@ struct pomp_loop {
 	/** Array of list of registered fds */
 	struct pomp_fd		*pfds[POMP_LOOP_PFDS_LEN];
 	uint32_t		pfdcount;	/**< Number of registered fds */
+	uint64_t		serial;		/**< Serial of last dispatch */
 
 	struct pomp_list_node	idle_entries;	/**< Idle entries */
 	struct pomp_evt		*idle_evt;	/**<  */
diff --git a/src/pomp_loop_linux.c b/src/pomp_loop_linux.c
index 92be214..3f4f674 100644
--- a/src/pomp_loop_linux.c
+++ b/src/pomp_loop_linux.c
@@ -252,6 +252,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 	struct epoll_event events[16];
 	struct pomp_fd *pfd = NULL;
 	uint32_t revents = 0;
+	uint64_t serial = 0;
 
 	memset(events, 0, sizeof(events));
 
@@ -269,7 +270,9 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 
 	pomp_watchdog_enter(&loop->watchdog);
 
-	/* Process events */
+	/* Process events. Fds registered from now on by callbacks were not part of
+	 * the wait, any event found for them is for a previous registration */
+	serial = ++loop->serial;
 	nevents = (uint32_t)res;
 	for (i = 0; i < nevents; i++) {
 		revents = fd_events_from_epoll(events[i].events);
@@ -284,7 +287,7 @@ static int pomp_loop_epoll_do_wait_and_process(struct pomp_loop *loop,
 
 		/* The list might be modified during the callback call */
 		pfd = pomp_loop_find_pfd(loop, events[i].data.fd);
-		if (pfd != NULL)
+		if (pfd != NULL && pfd->serial < serial)
 			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
 	}
 
diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index dda5fae..a6c93dc 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -186,6 +186,7 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 	struct pomp_fd *pfd = NULL;
 	struct pollfd *pollfds = NULL;
 	uint32_t revents = 0;
+	uint64_t serial = 0;
 	uint32_t pfdcount = 0;
 	unsigned int pfdi;
 
@@ -235,7 +236,9 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 
 	pomp_watchdog_enter(&loop->watchdog);
 
-	/* Process events */
+	/* Process events. Fds registered from now on by callbacks were not part of
+	 * the wait, any event found for them is for a previous registration */
+	serial = ++loop->serial;
 	nevents = (uint32_t)res;
 	for (i = 0; i < pfdcount; i++) {
 		revents = fd_events_from_poll(loop->pollfds[i].revents);
@@ -250,7 +253,7 @@ static int pomp_loop_poll_do_wait_and_process(struct pomp_loop *loop,
 
 		/* The list might be modified during the callback call */
 		pfd = pomp_loop_find_pfd(loop, loop->pollfds[i].fd);
-		if (pfd != NULL)
+		if (pfd != NULL && pfd->serial < serial)
 			(*pfd->cb)(pfd->fd, revents, pfd->userdata);
 	}
 
-- 
2.43.0


From fadf93fb6151516353f3a04fa19d3d4cd1430c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 13/50] fix: posix loop wakeup never blocks when its pipe is
 full

The wakeup pipe was left blocking, and each wakeup wrote one byte while
the loop thread read one byte per dispatch: enough wakeups (or idle
functions added) without a dispatch blocked the caller forever. Make the
pipe non-blocking, treat a full pipe as an already pending wakeup and
drain it when it is notified.
---
 src/pomp_loop_posix.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/pomp_loop_posix.c b/src/pomp_loop_posix.c
index a6c93dc..9ea487a 100644
--- a/src/pomp_loop_posix.c
+++ b/src/pomp_loop_posix.c
@@ -86,12 +86,14 @@ static void pomp_loop_poll_wakeup_cb(struct pomp_loop *loop)
 {
 	/* Read from notification pipe */
 	ssize_t res = 0;
-	uint8_t dummy = 0;
+	uint8_t dummy[64];
+
+	/* Several wakeups are merged, consume all of them */
 	do {
-		res = read(loop->wakeup.pipefds[0], &dummy, sizeof(dummy));
-	} while (res < 0 && errno == EINTR);
+		res = read(loop->wakeup.pipefds[0], dummy, sizeof(dummy));
+	} while (res == (ssize_t)sizeof(dummy) || (res < 0 && errno == EINTR));
 
-	if (res < 0)
+	if (res < 0 && errno != EAGAIN)
 		POMP_LOG_FD_ERRNO("read", loop->wakeup.pipefds[0]);
 }
 
@@ -112,8 +114,25 @@ static int pomp_loop_poll_do_new(struct pomp_loop *loop)
 	if (pipe(loop->wakeup.pipefds) < 0) {
 		res = -errno;
 		POMP_LOG_ERRNO("pipe");
+		return res;
 	}
 
+	/* Setup fd flags, shall not block if the pipe is full or empty */
+	res = fd_setup_flags(loop->wakeup.pipefds[0]);
+	if (res < 0)
+		goto error;
+	res = fd_setup_flags(loop->wakeup.pipefds[1]);
+	if (res < 0)
+		goto error;
+
+	return 0;
+
+	/* Cleanup in case of error */
+error:
+	close(loop->wakeup.pipefds[0]);
+	loop->wakeup.pipefds[0] = -1;
+	close(loop->wakeup.pipefds[1]);
+	loop->wakeup.pipefds[1] = -1;
 	return res;
 }
 
@@ -275,7 +294,8 @@ static int pomp_loop_poll_do_wakeup(struct pomp_loop *loop)
 		res = write(loop->wakeup.pipefds[1], &dummy, sizeof(dummy));
 	} while (res < 0 && errno == EINTR);
 
-	if (res < 0) {
+	/* If the pipe is full, there is already a wakeup pending */
+	if (res < 0 && errno != EAGAIN) {
 		res = -errno;
 		POMP_LOG_FD_ERRNO("write", loop->wakeup.pipefds[1]);
 	} else {
-- 
2.43.0


From 73915a9ed7e1ddc87aaa16926757c811395d778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 14/50] fix: watchdog: keep the nanoseconds of the timeout
 below one second

When the deadline fell exactly on a full second, tv_nsec was 1000000000,
pthread_cond_timedwait failed with EINVAL without releasing the mutex,
and the watchdog thread spun while the loop was blocked for ever.
---
 src/pomp_watchdog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 6c054df..9843195 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -54,7 +54,7 @@ static void get_absolute_timeout(uint32_t delay, struct timespec *timeout)
 
 	timeout->tv_sec += delay / 1000;
 	timeout->tv_nsec += (delay % 1000) * 1000000;
-	while (timeout->tv_nsec > 1000000000) {
+	while (timeout->tv_nsec >= 1000000000) {
 		/* over one billion nsec, add 1 sec */
 		timeout->tv_sec++;
 		timeout->tv_nsec -= 1000000000;
-- 
2.43.0


From 0a5bc20f0b7ae70936f2b9b1c30bd1918a844396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 15/50] fix: watchdog: disabling it during a dispatch ends the
 monitoring

The monitoring flag and deadline survived pomp_watchdog_stop, so that
after enabling it again the new thread called the callback at once, even
outside of any dispatch, or through a NULL pointer.
---
 src/pomp_watchdog.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 9843195..9da9af7 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -176,6 +176,9 @@ int pomp_watchdog_stop(struct pomp_watchdog *watchdog)
 		memset(&watchdog->thread, 0, sizeof(watchdog->thread));
 		pthread_mutex_lock(&watchdog->mutex);
 		watchdog->should_stop = 0;
+		watchdog->monitoring = 0;
+		watchdog->next_timeout.tv_sec = 0;
+		watchdog->next_timeout.tv_nsec = 0;
 		pthread_mutex_unlock(&watchdog->mutex);
 		watchdog->started = 0;
 	}
-- 
2.43.0


From d2b4878852d8c352b7c081cae6d0388655a3dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 16/50] fix: do not carry decoder state or received fds from
 one datagram to the next

---
 src/pomp_conn.c | 11 ++++++++++-
 src/pomp_priv.h |  4 ++++
 src/pomp_prot.c | 15 +++++++++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 53fa50d..8dfcfa6 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -638,7 +638,7 @@ static int pomp_conn_process_read_with_cmsg(struct pomp_conn *conn)
 		return res;
 	}
 	conn->peer_addrlen = msg.msg_namelen;
-	if (readlen == 0)
+	if (readlen == 0 && !conn->isdgram)
 		return 0;
 
 	/* TODO: add a check on msg.msg_flags for MSG_TRUNC if the buffer
@@ -784,6 +784,15 @@ static void pomp_conn_process_read(struct pomp_conn *conn)
 			if (!conn->isdgram)
 				conn->removeflag = 1;
 		}
+
+		/* A message never spans several datagrams, do not keep anything
+		 * (partial message, file descriptors) for the next one */
+		if (conn->isdgram) {
+			if (conn->prot != NULL)
+				pomp_prot_reset(conn->prot);
+			pomp_conn_rx_fds_clear(&conn->rx_fds[0]);
+			pomp_conn_rx_fds_clear(&conn->rx_fds[1]);
+		}
 	} while (res > 0 && !conn->read_suspended && !conn->removeflag);
 
 	/* Reset peer/local addresses after reading message on dgram sockets */
diff --git a/src/pomp_priv.h b/src/pomp_priv.h
index 82997d0..e8a350c 100644
--- a/src/pomp_priv.h
+++ b/src/pomp_priv.h
@@ -236,6 +236,10 @@ int pomp_conn_send_raw_buf_to(struct pomp_conn *conn,
 		struct pomp_buffer *buf,
 		const struct sockaddr *addr, uint32_t addrlen);
 
+/* Protocol functions not part of public API */
+
+int pomp_prot_reset(struct pomp_prot *prot);
+
 /* Decoder functions not part of public API */
 
 /**
diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index e27bdf9..920af38 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -292,6 +292,21 @@ int pomp_prot_destroy(struct pomp_prot *prot)
 	return 0;
 }
 
+/**
+ * Reset a protocol decoder object. If a message was partially decoded, it is
+ * discarded.
+ * @param prot : protocol decoder.
+ * @return 0 in case of success, negative errno value in case of error.
+ */
+int pomp_prot_reset(struct pomp_prot *prot)
+{
+	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
+	if (prot->msg != NULL)
+		pomp_msg_clear(prot->msg);
+	pomp_prot_reset_state(prot);
+	return 0;
+}
+
 /**
  * Try to decode a message with given input data.
  * @param prot : protocol decoder.
-- 
2.43.0


From ee2c81e85b4337eb4bf4bfba2deaf94ac9a7d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 17/50] fix: keep a dgram context usable when a queued datagram
 can not be sent

---
 src/pomp_conn.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 8dfcfa6..310e11f 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -1018,6 +1018,13 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 
 		/* Try to write buffer */
 		res = pomp_io_buffer_write(iobuf, conn);
+		status = POMP_SEND_STATUS_OK;
+		if (res < 0 && !POMP_CONN_WOULD_BLOCK(-res) && conn->isdgram) {
+			/* Only this datagram is lost, continue with others */
+			status = POMP_SEND_STATUS_ERROR;
+			iobuf->off = iobuf->len;
+			res = 0;
+		}
 		if (res < 0 || iobuf->off != iobuf->len) {
 			pomp_conn_cancel_idle_cb(conn, icb_data);
 			icb_data = NULL;
@@ -1036,7 +1043,6 @@ static void pomp_conn_process_write(struct pomp_conn *conn)
 			if (conn->headbuf == NULL)
 				conn->tailbuf = NULL;
 
-			status = POMP_SEND_STATUS_OK;
 			if (conn->headbuf == NULL)
 				status |= POMP_SEND_STATUS_QUEUE_EMPTY;
 
-- 
2.43.0


From 403dfe64b42f13f821007ce01e1fab0b88890b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 18/50] fix: transmit file descriptors on unix dgram sockets

---
 src/pomp_conn.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pomp_conn.c b/src/pomp_conn.c
index 310e11f..b60fc93 100644
--- a/src/pomp_conn.c
+++ b/src/pomp_conn.c
@@ -298,6 +298,12 @@ static int pomp_io_buffer_write_with_cmsg(struct pomp_io_buffer *iobuf,
 	msg.msg_iov = &iov;
 	msg.msg_iovlen = 1;
 
+	/* Destination address for dgram */
+	if (conn->isdgram) {
+		msg.msg_name = &iobuf->addr;
+		msg.msg_namelen = iobuf->addrlen;
+	}
+
 	/* Setup the control part of the socket message */
 	msg.msg_control = cmsg_buf;
 	msg.msg_controllen = CMSG_SPACE(iobuf->buf->fdcount * sizeof(int));
@@ -329,6 +335,8 @@ static int pomp_io_buffer_write_with_cmsg(struct pomp_io_buffer *iobuf,
 	/* Return number of bytes written */
 	return (int)writelen;
 #else /* !SCM_RIGHTS */
+	if (conn->isdgram)
+		return pomp_io_buffer_write_dgram(iobuf, conn);
 	return pomp_io_buffer_write_normal(iobuf, conn);
 #endif /* !SCM_RIGHTS */
 }
@@ -350,10 +358,10 @@ static int pomp_io_buffer_write(struct pomp_io_buffer *iobuf,
 		return -ENOTCONN;
 
 	/* When offset is 0 and buffer has file descriptors in it, write them */
-	if (conn->isdgram)
-		res = pomp_io_buffer_write_dgram(iobuf, conn);
-	else if (iobuf->off == 0 && iobuf->buf->fdcount > 0)
+	if (iobuf->off == 0 && iobuf->buf->fdcount > 0)
 		res = pomp_io_buffer_write_with_cmsg(iobuf, conn);
+	else if (conn->isdgram)
+		res = pomp_io_buffer_write_dgram(iobuf, conn);
 	else
 		res = pomp_io_buffer_write_normal(iobuf, conn);
 	if (res < 0)
-- 
2.43.0


From e61c8033e55167d07569cb0105594e087ec6ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 19/50] fix: let a unix dgram context bind again after a stop
 or a failed attempt

---
 src/pomp_ctx.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index b7d32b3..b53ce70 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -772,6 +772,12 @@ static int dgram_start(struct pomp_ctx *ctx)
 		goto error;
 	}
 
+	/* For non abstract unix socket, unlink file before bind */
+	if (ctx->addr->sa_family == AF_UNIX
+			&& POMP_GET_UNIX_PATH(ctx->addr)[0] != '\0') {
+		unlink(POMP_GET_UNIX_PATH(ctx->addr));
+	}
+
 	/* Bind to address  */
 	if (bind(ctx->u.dgram.fd, ctx->addr, ctx->addrlen) < 0) {
 		/* Handle case where address do not match an existent
@@ -847,6 +853,12 @@ static int dgram_stop(struct pomp_ctx *ctx)
 		ctx->u.dgram.fd = -1;
 	}
 
+	/* For non abstract unix socket, unlink file also */
+	if (ctx->addr->sa_family == AF_UNIX
+			&& POMP_GET_UNIX_PATH(ctx->addr)[0] != '\0') {
+		unlink(POMP_GET_UNIX_PATH(ctx->addr));
+	}
+
 	/* Clear bound local address */
 	memset(&ctx->u.dgram.local_addr, 0, sizeof(ctx->u.dgram.local_addr));
 	ctx->u.dgram.local_addrlen = 0;
-- 
2.43.0


From ac70059c1142bdca77b60c1fa79ca8250956f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 20/50] fix: do not report success for a typed message that
 could not be written

Message::write<Fmt> ignored the results of initializing and finishing the
message, so that a message without arguments was reported as written when
no memory was left for it.
---
 include/libpomp.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index cff77b3..e85cd1c 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -156,11 +156,16 @@ public:
 		if (mMsg == NULL)
 			return -EINVAL;
 		struct pomp_encoder *enc = pomp_encoder_new();
+		if (enc == NULL)
+			return -ENOMEM;
 		pomp_msg_clear(mMsg);
-		pomp_msg_init(mMsg, Fmt::id);
-		pomp_encoder_init(enc, mMsg);
-		int res = Fmt::encode(enc, std::forward<const ArgsW&>(args)...);
-		pomp_msg_finish(mMsg);
+		int res = pomp_msg_init(mMsg, Fmt::id);
+		if (res == 0)
+			res = pomp_encoder_init(enc, mMsg);
+		if (res == 0)
+			res = Fmt::encode(enc, std::forward<const ArgsW&>(args)...);
+		if (res == 0)
+			res = pomp_msg_finish(mMsg);
 		pomp_encoder_destroy(enc);
 		return res;
 	}
-- 
2.43.0


From 1e40c85bde5584c877d4697883b61a184f380a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 21/50] fix: allow empty buffers as arguments of messages
 written in C++

The data pointer of an empty vector is usually NULL, which the encoder
refuses.
---
 include/libpomp-cxx11.hpp | 4 +++-
 include/libpomp.hpp       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libpomp-cxx11.hpp b/include/libpomp-cxx11.hpp
index 7f9fb31..141c4fa 100644
--- a/include/libpomp-cxx11.hpp
+++ b/include/libpomp-cxx11.hpp
@@ -185,7 +185,9 @@ template<> struct traits<ArgBuf> {
 	enum {valid = true};
 	typedef std::vector<uint8_t> type;
 	inline static int encode(struct pomp_encoder *enc, const type &v) {
-		const uint8_t *p = v.data();
+		/* Data of an empty vector can be NULL */
+		const uint8_t empty = 0;
+		const uint8_t *p = v.empty() ? &empty : v.data();
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(enc, p, n);
 	}
diff --git a/include/libpomp.hpp b/include/libpomp.hpp
index e85cd1c..d2e1423 100644
--- a/include/libpomp.hpp
+++ b/include/libpomp.hpp
@@ -357,7 +357,9 @@ public:
 	}
 
 	int write(const std::vector<uint8_t> &v) {
-		const uint8_t *p = v.data();
+		/* Data of an empty vector can be NULL */
+		const uint8_t empty = 0;
+		const uint8_t *p = v.empty() ? &empty : v.data();
 		uint32_t n = static_cast<uint32_t>(v.size());
 		return pomp_encoder_write_buf(mEnc, p, n);
 	}
-- 
2.43.0


From bc43d61fc8a24e0f7dcbd45ff205b5bb11853b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 22/50] fix: reject variable size integers that do not fit when
 decoding

An encoding longer than 10 bytes shifted by 64 bits or more (undefined), and
a value or size too large for its type was silently truncated, so malformed
arguments received from a peer were decoded as if they were well formed.
---
 src/pomp_decoder.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index e9039f0..0f7f23c 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -131,11 +131,12 @@ static int decoder_read_data(struct pomp_decoder *dec, uint8_t type,
  * Read an integer as a variable number of bytes.
  * @param dec : decoder.
  * @param type : data type, 0 to just read raw data without type byte.
+ * @param max : maximum value that can be read.
  * @param v : value to read.
  * @return 0 in case of success, negative errno value in case of error.
  */
 static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
-		uint64_t *v)
+		uint64_t max, uint64_t *v)
 {
 	int res = 0;
 	uint8_t readtype = 0;
@@ -163,10 +164,23 @@ static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
 		res = pomp_buffer_readb(dec->msg->buf, &dec->pos, &b);
 		if (res < 0)
 			return res;
+
+		/* Reject encodings that do not fit in 64 bits */
+		if (shift >= 64 || (shift == 63 && (b & 0x7f) > 1)) {
+			POMP_LOGW("decoder : invalid variable size integer");
+			return -EINVAL;
+		}
+
 		*v |= (((uint64_t)(b & 0x7f)) << shift);
 		shift += 7;
 	} while (b & 0x80);
 
+	/* Make sure value fits in the type read */
+	if (*v > max) {
+		POMP_LOGW("decoder : integer out of range");
+		return -EINVAL;
+	}
+
 	return 0;
 }
 
@@ -180,7 +194,7 @@ static int decoder_read_size_u16(struct pomp_decoder *dec, uint16_t *n)
 {
 	int res = 0;
 	uint64_t d = 0;
-	res = decoder_read_varint(dec, 0, &d);
+	res = decoder_read_varint(dec, 0, UINT16_MAX, &d);
 	*n = (uint16_t)d;
 	return res;
 }
@@ -195,7 +209,7 @@ static int decoder_read_size_u32(struct pomp_decoder *dec, uint32_t *n)
 {
 	int res = 0;
 	uint64_t d = 0;
-	res = decoder_read_varint(dec, 0, &d);
+	res = decoder_read_varint(dec, 0, UINT32_MAX, &d);
 	*n = (uint32_t)d;
 	return res;
 }
@@ -900,7 +914,7 @@ int pomp_decoder_read_i32(struct pomp_decoder *dec, int32_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
-	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_I32, &d);
+	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_I32, UINT32_MAX, &d);
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*v = ((int32_t)(d >> 1)) ^ -((int32_t)(d & 0x1));
 	return res;
@@ -916,7 +930,7 @@ int pomp_decoder_read_u32(struct pomp_decoder *dec, uint32_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
-	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_U32, &d);
+	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_U32, UINT32_MAX, &d);
 	*v = (uint32_t)d;
 	return res;
 }
@@ -931,7 +945,7 @@ int pomp_decoder_read_i64(struct pomp_decoder *dec, int64_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
-	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_I64, &d);
+	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_I64, UINT64_MAX, &d);
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*v = ((int64_t)(d >> 1)) ^ -((int64_t)(d & 0x1));
 	return res;
@@ -947,7 +961,7 @@ int pomp_decoder_read_u64(struct pomp_decoder *dec, uint64_t *v)
 	POMP_RETURN_ERR_IF_FAILED(dec != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(dec->msg != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(v != NULL, -EINVAL);
-	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_U64, &d);
+	res = decoder_read_varint(dec, POMP_PROT_DATA_TYPE_U64, UINT64_MAX, &d);
 	*v = d;
 	return res;
 }
-- 
2.43.0


From b68e69f2b921d2e89bb6818ed55b01d6a41d2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 23/50] fix: report an allocation failure when dumping a
 message

When the text of an argument could not be allocated the walk was stopped but
the dump was still reported as successful, without the remaining arguments.
---
 src/pomp_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 0f7f23c..335797d 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -473,6 +473,7 @@ struct pomp_decoder_dump_ctx {
 	uint32_t	maxdst;	/**< Max length of destination */
 	uint32_t	pos;	/**< Current position in destination */
 	int		grow;	/**< Automatically grow destination */
+	int		res;	/**< Result of dump of last argument */
 };
 
 /**
@@ -638,6 +639,7 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 
 out:
 	/* Continue if no errors and destination not full */
+	ctx->res = res;
 	return res == 0 && (ctx->pos < ctx->maxdst || ctx->grow);
 }
 
@@ -659,6 +661,8 @@ static int decoder_dump(struct pomp_decoder *dec,
 
 	/* Arguments */
 	res = pomp_decoder_walk(dec, &decoder_dump_cb, ctx, 1);
+	if (res == 0)
+		res = ctx->res;
 	if (res < 0)
 		goto out;
 
-- 
2.43.0


From 9a9df1b030b3d57f4c5c4156d0955103769569ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 24/50] fix: reserve enough room for strings when dumping a
 message

The text around a string is 8 characters long. With only 6 accounted for, the
automatically allocated dump was truncated at some sizes.
---
 src/pomp_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 335797d..b34ceb4 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -608,7 +608,7 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 		break;
 
 	case POMP_PROT_DATA_TYPE_STR:
-		res = dump_append(ctx, 6 + (uint32_t)strlen(v->cstr),
+		res = dump_append(ctx, 8 + (uint32_t)strlen(v->cstr),
 				", STR:'%s'", v->cstr);
 		break;
 
-- 
2.43.0


From 5d7350bb670428d7597c177fadba6f6dfcabec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 25/50] fix: return no message from protocol decoder if more
 input is required

As documented, NULL shall be returned in that case instead of leaving the
output parameter uninitialized.
---
 src/pomp_prot.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 920af38..2d8c296 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -330,6 +330,9 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(msg != NULL, -EINVAL);
 
+	/* No message decoded yet */
+	*msg = NULL;
+
 	/* If idle, start a new parsing */
 	if (prot->state == POMP_PROT_STATE_IDLE)
 		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
-- 
2.43.0


From d3da9432f4de8bcf903ff42766e377b8614abb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:12 +0000
Subject: [PATCH 26/50] fix: check buffer arguments given as strings when
 encoding

The string was read beyond its end if it had fewer digits than the given size
(or was missing), one byte was written beyond an empty buffer, and strings
with an odd number of digits were not decoded correctly.
---
 src/pomp_encoder.c | 49 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index ee87eef..f135d54 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -209,19 +209,36 @@ static int encoder_write_size_u32(struct pomp_encoder *enc, uint32_t n)
  * @param decodepos : string to decode.
  * @param len : len in bytes of the resulting string.
  * @param out : allocated output buffer.
+ * @return 0 in case of success, negative errno value in case of error.
  */
 static int parse_buffer_argv(const char *decodepos, uint32_t len, void *out)
 {
 	uint32_t i = 0;
-	/* first byte should be padded with 0 if len is odd */
-	if (strlen(decodepos) % 2 == 1)
-		sscanf(decodepos, "%hhx", &(((uint8_t *)out)[0]));
-	else
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[0]));
-	decodepos += 2;
-	for (i = 1; i < len; i++) {
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[i]));
-		decodepos += 2;
+	size_t digits = 0;
+	int res = 0;
+
+	/* Make sure there are enough digits for the requested length */
+	digits = strlen(decodepos);
+	if (digits / 2 + digits % 2 < len) {
+		POMP_LOGW("encoder : buffer argument too short");
+		return -EINVAL;
+	}
+
+	for (i = 0; i < len; i++) {
+		/* first byte should be padded with 0 if len is odd */
+		if (i == 0 && digits % 2 == 1) {
+			/* codecheck_ignore[LONG_LINE] */
+			res = sscanf(decodepos, "%1hhx", &(((uint8_t *)out)[i]));
+			decodepos += 1;
+		} else {
+			/* codecheck_ignore[LONG_LINE] */
+			res = sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[i]));
+			decodepos += 2;
+		}
+		if (res != 1) {
+			POMP_LOGW("encoder : invalid buffer argument");
+			return -EINVAL;
+		}
 	}
 	return 0;
 }
@@ -377,6 +394,12 @@ again:
 				} else {
 					int argbufferpos = argidx;
 					const char *decodepos;
+					/* codecheck_ignore[LONG_LINE] */
+					if (argidx >= argc || argv[argidx] == NULL) {
+						res = -EINVAL;
+						POMP_LOGW("Missing buf argument");
+						goto out;
+					}
 					/*go to next argument to get size*/
 					argidx++;
 					/* codecheck_ignore[LONG_LINE] */
@@ -390,9 +413,11 @@ again:
 					}
 					decodepos = argv[argbufferpos];
 					/* codecheck_ignore[LONG_LINE] */
-					parse_buffer_argv(decodepos, len, v.buf);
-					/* codecheck_ignore[LONG_LINE] */
-					res = pomp_encoder_write_buf(enc, v.buf, len);
+					res = parse_buffer_argv(decodepos, len, v.buf);
+					if (res == 0) {
+						/* codecheck_ignore[LONG_LINE] */
+						res = pomp_encoder_write_buf(enc, v.buf, len);
+					}
 					free(v.buf);
 				}
 			} else if (*fmt++ != '%' || *fmt++ != 'u') {
-- 
2.43.0


From 8b247d08f5b165b43d1ba138787457753ca95430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 27/50] fix: refuse a port beyond 65535 in a textual address

---
 src/pomp_addr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index 2008ca8..af106d0 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -68,6 +68,10 @@ static int pomp_addr_parse_inet(const char *buf, struct sockaddr *addr,
 		goto out;
 	*sep = '\0';
 
+	/* Check range of port, getaddrinfo silently truncates it to 16 bits */
+	if (strtoul(sep + 1, NULL, 10) > UINT16_MAX)
+		goto out;
+
 	/* Convert address and port
 	 * WIN32 returns positive value for errors */
 	res = getaddrinfo(ip, sep + 1, &hints, &ai);
-- 
2.43.0


From 41bb80704197118a980291aab361320ab0d57788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 28/50] fix: pomp_addr_format reads past a full unix path
 without terminator

A sockaddr_un path of 108 bytes has no final null byte; the text was
formatted with an unbounded %s.
---
 src/pomp_addr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index af106d0..4dfef42 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -187,9 +187,13 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 				-EINVAL);
 		addr_un = (const struct sockaddr_un *)addr;
 		if (addr_un->sun_path[0] == '\0')
-			snprintf(buf, buflen, "unix:@%s", addr_un->sun_path+1);
+			snprintf(buf, buflen, "unix:@%.*s",
+					(int)sizeof(addr_un->sun_path) - 1,
+					addr_un->sun_path+1);
 		else
-			snprintf(buf, buflen, "unix:%s", addr_un->sun_path);
+			snprintf(buf, buflen, "unix:%.*s",
+					(int)sizeof(addr_un->sun_path),
+					addr_un->sun_path);
 		break;
 
 	default:
-- 
2.43.0


From f18b5dd48f1312002fd3af51bb435fc47af7603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 29/50] fix: stop requested from the socket callback was done
 under its caller

The socket callback is called in the middle of starting, connecting and
accepting. A stop done inside it destroyed the connection or closed the
socket still in use: null dereference, failed start or connection attempt
of a stopped client. Defer it as for the other callbacks.
---
 src/pomp_ctx.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index b53ce70..e69bf4f 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -262,6 +262,23 @@ out:
 	return res;
 }
 
+/**
+ * Notify the application of the creation of a socket. A stop requested from
+ * the callback is done in idle, the caller is still using the context.
+ * @param ctx : context.
+ * @param fd : socket fd.
+ * @param kind : socket kind.
+ */
+static void ctx_notify_socket(struct pomp_ctx *ctx, int fd,
+		enum pomp_socket_kind kind)
+{
+	if (ctx->sockcb != NULL) {
+		ctx->notifying++;
+		(*ctx->sockcb)(ctx, fd, kind, ctx->userdata);
+		ctx->notifying--;
+	}
+}
+
 /**
  * Accept a new connection in a server context.
  * The user will be notified and the connection fd will be monitored for io.
@@ -311,8 +328,7 @@ static int server_accept_conn(int server_fd, struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL)
-		(*ctx->sockcb)(ctx, fd, POMP_SOCKET_KIND_PEER, ctx->userdata);
+	ctx_notify_socket(ctx, fd, POMP_SOCKET_KIND_PEER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(fd);
@@ -409,10 +425,7 @@ static int server_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.server.fd,
-				POMP_SOCKET_KIND_SERVER, ctx->userdata);
-	}
+	ctx_notify_socket(ctx, ctx->u.server.fd, POMP_SOCKET_KIND_SERVER);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.server.fd);
@@ -656,10 +669,7 @@ static int client_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.client.fd,
-				POMP_SOCKET_KIND_CLIENT, ctx->userdata);
-	}
+	ctx_notify_socket(ctx, ctx->u.client.fd, POMP_SOCKET_KIND_CLIENT);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.client.fd);
@@ -753,10 +763,7 @@ static int dgram_start(struct pomp_ctx *ctx)
 	}
 
 	/* Notify application */
-	if (ctx->sockcb != NULL) {
-		(*ctx->sockcb)(ctx, ctx->u.dgram.fd,
-				POMP_SOCKET_KIND_DGRAM, ctx->userdata);
-	}
+	ctx_notify_socket(ctx, ctx->u.dgram.fd, POMP_SOCKET_KIND_DGRAM);
 
 	/* Setup socket flags */
 	res = fd_setup_flags(ctx->u.dgram.fd);
-- 
2.43.0


From 3180361836897e56813b42be7ae1653e235c7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 30/50] fix: pomp-cli does not send a message without arguments

Without format and arguments pomp_msg_write_argv was given -1 arguments
and a null array, which it refuses.
---
 tools/pomp_cli.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/pomp_cli.c b/tools/pomp_cli.c
index a2312a9..a1ab030 100644
--- a/tools/pomp_cli.c
+++ b/tools/pomp_cli.c
@@ -180,9 +180,13 @@ static int send_msg()
 		goto error;
 	}
 
-	/* Encode message */
-	res = pomp_msg_write_argv(msg, s_app.msgid, s_app.msgfmt,
-			s_app.msgargc, s_app.msgargv);
+	/* Encode message (format is optional if there is no arguments) */
+	if (s_app.msgfmt == NULL) {
+		res = pomp_msg_write(msg, s_app.msgid, NULL);
+	} else {
+		res = pomp_msg_write_argv(msg, s_app.msgid, s_app.msgfmt,
+				s_app.msgargc, s_app.msgargv);
+	}
 	if (res < 0) {
 		diag("pomp_msg_write_argv: err=%d(%s)", res, strerror(-res));
 		goto error;
-- 
2.43.0


From 4cdb62030bd35bcdbcea4f1f559a38e4c8b49e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 31/50] fix: signal while pomp-cli ends uses the loop it has
 destroyed

The signal handler wakes the loop up as long as the pointer is set; it was
cleared only after the context and its loop were destroyed.
---
 tools/pomp_cli.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/pomp_cli.c b/tools/pomp_cli.c
index a1ab030..7e75156 100644
--- a/tools/pomp_cli.c
+++ b/tools/pomp_cli.c
@@ -483,9 +483,10 @@ out:
 	if (s_app.ctx != NULL) {
 		pomp_ctx_stop(s_app.ctx);
 		cancel_timeout();
+		/* A signal shall not use the loop once it is destroyed */
+		s_app.loop = NULL;
 		pomp_ctx_destroy(s_app.ctx);
 		s_app.ctx = NULL;
-		s_app.loop = NULL;
 	}
 	return res == 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From bae1098fcb5af4f4a4f3a4f98f5c496115fa64c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 32/50] fix: pomp-cli misses the awaited message if it can not
 dump it

---
 tools/pomp_cli.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/pomp_cli.c b/tools/pomp_cli.c
index 7e75156..f48afba 100644
--- a/tools/pomp_cli.c
+++ b/tools/pomp_cli.c
@@ -252,10 +252,10 @@ static void event_cb(struct pomp_ctx *ctx, enum pomp_event event,
 			if (res < 0) {
 				diag("pomp_msg_adump: err=%d(%s)", res,
 						strerror(-res));
-				return;
+			} else {
+				diag("MSG: %s", buf);
+				free(buf);
 			}
-			diag("MSG: %s", buf);
-			free(buf);
 		}
 		if (s_app.waitmsg &&
 				pomp_msg_get_id(msg) == s_app.expected_msgid) {
-- 
2.43.0


From 659a9117a6121f17b910cb98047a343d0798d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 33/50] fix: pomp-cli ends before its message is sent

When only sending, it stopped its context as soon as connected (or bound),
dropping whatever part of the message the socket had not taken at once: a
message larger than the socket buffer was cut, a datagram was lost if the
receiver was busy. Wait for the send notification, on the connection that
was just announced.
---
 tools/pomp_cli.c | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/tools/pomp_cli.c b/tools/pomp_cli.c
index f48afba..ff617e2 100644
--- a/tools/pomp_cli.c
+++ b/tools/pomp_cli.c
@@ -85,6 +85,7 @@ struct app {
 	const char              *msgfmt;
 	int                     msgargc;
 	const char * const      *msgargv;
+	int                     sending;
 	int                     running;
 	struct pomp_loop        *loop;
 	struct pomp_timer       *timer;
@@ -104,6 +105,7 @@ static struct app s_app = {
 		.msgfmt = NULL,
 		.msgargc = -1,
 		.msgargv = NULL,
+		.sending = 0,
 		.running = 0,
 		.loop = NULL,
 		.timer = NULL,
@@ -168,7 +170,7 @@ static void cancel_timeout()
 /**
  *
  */
-static int send_msg()
+static int send_msg(struct pomp_conn *conn)
 {
 	int res = 0;
 	struct pomp_msg *msg = NULL;
@@ -197,7 +199,7 @@ static int send_msg()
 		res = pomp_ctx_send_msg_to(s_app.ctx, msg,
 				s_app.addrto, s_app.addrtolen);
 	} else {
-		res = pomp_ctx_send_msg(s_app.ctx, msg);
+		res = pomp_conn_send_msg(conn, msg);
 	}
 
 	if (res < 0) {
@@ -205,6 +207,9 @@ static int send_msg()
 		goto error;
 	}
 
+	/* Completion will be notified by send_cb */
+	s_app.sending = 1;
+
 	/* Cleanup */
 error:
 	if (msg != NULL)
@@ -212,6 +217,20 @@ error:
 	return res;
 }
 
+/**
+ *
+ */
+static void send_cb(struct pomp_ctx *ctx, struct pomp_conn *conn,
+		struct pomp_buffer *buf, uint32_t status, void *cookie,
+		void *userdata)
+{
+	s_app.sending = 0;
+
+	/* Exit loop if not dumping or waiting message */
+	if (!s_app.dump && !s_app.waitmsg)
+		s_app.running = 0;
+}
+
 /**
  *
  */
@@ -229,15 +248,18 @@ static void event_cb(struct pomp_ctx *ctx, enum pomp_event event,
 	case POMP_EVENT_CONNECTED:
 		/* Send message once connected (ignore errors) */
 		if (s_app.hasmsg) {
-			send_msg();
+			send_msg(conn);
 			s_app.hasmsg = 0;
 		}
 
-		/* Exit loop if not dumping message */
-		if (!s_app.dump && !s_app.waitmsg)
-			s_app.running = 0;
-		else if (!s_app.waitmsg)
+		/* Exit loop if not dumping message (send_cb will do it if the
+		 * message is being sent) */
+		if (!s_app.dump && !s_app.waitmsg) {
+			if (!s_app.sending)
+				s_app.running = 0;
+		} else if (!s_app.waitmsg) {
 			cancel_timeout();
+		}
 		break;
 
 	case POMP_EVENT_DISCONNECTED:
@@ -378,6 +400,7 @@ int main(int argc, char *argv[])
 	if (s_app.ctx == NULL)
 		goto error;
 	s_app.loop = pomp_ctx_get_loop(s_app.ctx);
+	pomp_ctx_set_send_cb(s_app.ctx, &send_cb);
 
 	/* Get address */
 	if (argc - argidx >= 1) {
@@ -463,10 +486,10 @@ int main(int argc, char *argv[])
 	if (udp) {
 		/* Send message now for udp */
 		if (s_app.hasmsg)
-			send_msg();
+			send_msg(NULL);
 
-		/* Do not run loop if not dumping or waiting */
-		if (!s_app.dump && !s_app.waitmsg)
+		/* Do not run loop if not sending, dumping or waiting */
+		if (!s_app.dump && !s_app.waitmsg && !s_app.sending)
 			goto out;
 	}
 
-- 
2.43.0


From 407aa945d7190e13681f496589a7214cf62c88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 34/50] fix: python: size in the header of a message without
 arguments

Skipping the header does not extend the buffer, so the size written was
8 instead of 12 and the peer dropped the message.
---
 python/pomp/message.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/pomp/message.py b/python/pomp/message.py
index 4bea6ef..b8b3e89 100644
--- a/python/pomp/message.py
+++ b/python/pomp/message.py
@@ -54,11 +54,12 @@ class Message(object):
         if self.buf.getPos() < protocol.HEADER_SIZE:
             self.buf.skip(protocol.HEADER_SIZE - self.buf.getPos())
 
-        # Write header
+        # Write header (buffer may be shorter than it if there is no argument)
+        size = max(len(self.buf), protocol.HEADER_SIZE)
         self.buf.rewind()
         self.buf.writeInt(protocol.POMP_MAGIC)
         self.buf.writeInt(self.msgid)
-        self.buf.writeInt(len(self.buf))
+        self.buf.writeInt(size)
 
         # Make message read-only
         self.finished = True
-- 
2.43.0


From dd805504bd007e35901d69ceee203d92ef1a51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 35/50] fix: python: writer thread died on the first datagram
 sent

Requests to send a message to an address have three members.
---
 python/pomp/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index 986c4f5..d116583 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -195,8 +195,9 @@ class Connection(object):
         looper.runLoop()
 
     def _onWriteRequest(self, req):
-        (what, txMsg) = req
+        what = req[0]
         if what == Connection._WRITE_MSG:
+            (what, txMsg) = req
             try:
                 self.sock.sendall(txMsg.buf.getData())
             except (OSError, IOError) as ex:
-- 
2.43.0


From 909e93f6b593741599c67d7bcdb1e1df9ce432fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 36/50] fix: python: message lost after a partial magic

The byte that does not match may be the first one of the next header.
---
 python/pomp/protocol.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pomp/protocol.py b/python/pomp/protocol.py
index f8ed675..d9757ee 100644
--- a/python/pomp/protocol.py
+++ b/python/pomp/protocol.py
@@ -156,6 +156,11 @@ class Protocol(object):
         if magic != val:
             _log.warning("Bad header magic %d: 0x%02x(0x%02x)", idx, magic, val)
             self.state = Protocol._STATE_HEADER_MAGIC_0
+            # It may be the first byte of the next header
+            if idx > 0 and magic == POMP_MAGIC_0:
+                self._reset()
+                self.headerBuf.writeByte(magic)
+                self.state = Protocol._STATE_HEADER_MAGIC_1
         else:
             self.state = state
 
-- 
2.43.0


From 21bd41325946b73426aba50883809cd81f551ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 37/50] fix: python: truncated datagram corrupted the next one

The state of the decoder was kept from one datagram to the next.
---
 python/pomp/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index d116583..079967e 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -160,6 +160,8 @@ class Connection(object):
                 # Read and decode data into messages and notify them
                 if self.isDgram:
                     (buf, self.peerAddr) = self.sock.recvfrom(self._BUFSIZ)
+                    # Each datagram is decoded on its own
+                    prot = Protocol()
                 else:
                     buf = self.sock.recv(self._BUFSIZ)
                 if not buf and not self.isDgram:
-- 
2.43.0


From 18716523984170384050e4fe0347ef314b84b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 38/50] fix: python: truncated string or buffer argument was
 accepted

Reading past the end of the message returned what was left of it.
---
 python/pomp/decoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pomp/decoder.py b/python/pomp/decoder.py
index 9827977..d891071 100644
--- a/python/pomp/decoder.py
+++ b/python/pomp/decoder.py
@@ -250,7 +250,10 @@ class Decoder(object):
         return struct.unpack("<d", self._read(8))[0]
 
     def _read(self, count):
-        return self.msg.buf.read(count)
+        buf = self.msg.buf.read(count)
+        if len(buf) != count:
+            raise DecodeException("decoder : message truncated")
+        return buf
 
     def _readByte(self):
         return self.msg.buf.readByte()
-- 
2.43.0


From 58f9a3c347e2e14482a9dcf77752b551129d87e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 39/50] fix: python: failure to create a socket ended the
 context's thread

Nothing tried again, and nothing told the application.
---
 python/pomp/context.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 199d567..21e0cea 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -49,6 +49,7 @@ _CONN_MSG = 2
 _SERVER_RECONNECT_DELAY = 2.0
 _CLIENT_RECONNECT_DELAY = 2.0
 _DGRAM_RECONNECT_DELAY = 2.0
+_SOCKET_RETRY_DELAY = 2.0
 
 #===============================================================================
 #===============================================================================
@@ -338,12 +339,17 @@ class Context(object):
     def _setupSock(self, socktype=socket.SOCK_STREAM):
         try:
             self.cond.acquire()
-            if not self.running:
-                return False
-            self.sock = socket.socket(self.sockFamily, socktype)
+            while self.running:
+                try:
+                    self.sock = socket.socket(self.sockFamily, socktype)
+                    return True
+                except (OSError, IOError) as ex:
+                    _log.warning("socket: err=%d(%s)", ex.errno, ex.strerror)
+                    # Retry again later
+                    self.cond.wait(_SOCKET_RETRY_DELAY)
         finally:
             self.cond.release()
-        return True
+        return False
 
     def _cleanupSock(self):
         try:
-- 
2.43.0


From bf7c3d3bdeb20b2513ba1e73fe06c54e444b16ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 40/50] fix: python: peer that left at once ended the context's
 thread

The address of the peer of a connection that is already reset can not be
read, the exception ended the thread that accepts or connects.
---
 python/pomp/context.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 21e0cea..a6610fe 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -226,8 +226,12 @@ class Context(object):
                             _log.warning("accept: err=%d(%s)", ex.errno, ex.strerror)
 
                     # Create connection object
+                    conn = None
                     if sockPeer is not None:
-                        conn = Connection(self, sockPeer[0])
+                        conn = self._newConn(sockPeer[0])
+                        if conn is None:
+                            sockPeer[0].close()
+                    if conn is not None:
                         self.mainHandler.post((_CONN_ADD, conn, None))
                     else:
                         # Release our token
@@ -276,10 +280,12 @@ class Context(object):
                         _log.warning("connect: err=%d(%s)", ex.errno, ex.strerror)
 
             # Create connection object, give ownership of socket
+            conn = None
             if connected:
+                conn = self._newConn(self.sock)
+            if conn is not None:
                 try:
                     self.cond.acquire()
-                    conn = Connection(self, self.sock)
                     self.sock = None
                     self.mainHandler.post((_CONN_ADD, conn, None))
                 finally:
@@ -318,10 +324,12 @@ class Context(object):
                     _log.warning("bind: err=%d(%s)", ex.errno, ex.strerror)
 
             # Create connection object, give ownership of socket
+            conn = None
             if bound:
+                conn = self._newConn(self.sock, isDgram=True)
+            if conn is not None:
                 try:
                     self.cond.acquire()
-                    conn = Connection(self, self.sock, isDgram=True)
                     self.sock = None
                     self.mainHandler.post((_CONN_ADD, conn, None))
                 finally:
@@ -336,6 +344,14 @@ class Context(object):
             # Retry again later
             self._waitForRetry(_DGRAM_RECONNECT_DELAY)
 
+    def _newConn(self, sock, isDgram=False):
+        # Fails if the peer is already gone
+        try:
+            return Connection(self, sock, isDgram=isDgram)
+        except (OSError, IOError) as ex:
+            _log.warning("conn: err=%d(%s)", ex.errno, ex.strerror)
+            return None
+
     def _setupSock(self, socktype=socket.SOCK_STREAM):
         try:
             self.cond.acquire()
-- 
2.43.0


From 3ecd7643d215d83f20282b59906beacca377ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 41/50] fix: python: stop blocked if a connection was waiting
 to be added

The token of a connection that is not yet added is never given back.
---
 python/pomp/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index a6610fe..d464f4b 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -127,6 +127,9 @@ class Context(object):
         finally:
             self.cond.release()
 
+        # Socket thread may wait for the end of a connection not added yet
+        self.semaphore.release()
+
         # Wait socket thread
         self.sockThread.join()
 
-- 
2.43.0


From a012ac0edef2fbce771d3ea165d4b66d91ecf192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 42/50] fix: python: exception when a connection not started is
 closed

It happens when the context is stopped before the connection is added.
---
 python/pomp/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pomp/connection.py b/python/pomp/connection.py
index 079967e..05c88c7 100644
--- a/python/pomp/connection.py
+++ b/python/pomp/connection.py
@@ -130,6 +130,12 @@ class Connection(object):
             self.cond.release()
 
     def close(self):
+        # Nothing to stop if not started
+        if self.readThread is None:
+            self.sock.close()
+            self.sock = None
+            return
+
         # Ask everyone to stop
         try:
             self.cond.acquire()
-- 
2.43.0


From 5640dc712d579a7884dc01684dd8a05070ad1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 43/50] fix: python: events of a connection that is already
 removed

Messages were notified after the disconnection, and a connection of the
previous start was added after the context was started again.
---
 python/pomp/context.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index d464f4b..913bf22 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -164,16 +164,19 @@ class Context(object):
 
     def _onRequest(self, req):
         (what, conn, rxMsg) = req
-        if not self.running:
-            _log.warning("Handler request lost")
-            if what == _CONN_ADD:
+        if what == _CONN_ADD:
+            # Could have been stopped (and started again) in between
+            if self.running and conn.semaphore is self.semaphore:
+                self._doConnAdd(conn)
+            else:
+                _log.warning("Handler request lost")
                 conn.close()
-        elif what == _CONN_ADD:
-            self._doConnAdd(conn)
         elif what == _CONN_REMOVE:
             self._doConnRemove(conn)
         elif what == _CONN_MSG:
-            self.eventHandler.recvMessage(self, conn, rxMsg)
+            # Could have been removed in between
+            if conn in self.connections:
+                self.eventHandler.recvMessage(self, conn, rxMsg)
         else:
             assert False
 
@@ -350,7 +353,9 @@ class Context(object):
     def _newConn(self, sock, isDgram=False):
         # Fails if the peer is already gone
         try:
-            return Connection(self, sock, isDgram=isDgram)
+            conn = Connection(self, sock, isDgram=isDgram)
+            conn.semaphore = self.semaphore
+            return conn
         except (OSError, IOError) as ex:
             _log.warning("conn: err=%d(%s)", ex.errno, ex.strerror)
             return None
-- 
2.43.0


From 38e320867725ebef62e26d0314ecbf0093835a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 44/50] fix: python: stop in the notification of a
 disconnection

It notified the disconnection again, without end. The threads of the
connection still need the handler of the context until it is closed.
---
 python/pomp/context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/pomp/context.py b/python/pomp/context.py
index 913bf22..0f5cf94 100644
--- a/python/pomp/context.py
+++ b/python/pomp/context.py
@@ -138,7 +138,6 @@ class Context(object):
         self.sock = None
         self.sockAddr = None
         self.sockThread = None
-        self.mainHandler = None
 
     def sendMsg(self, msg):
         for conn in self.connections:
@@ -194,10 +193,10 @@ class Context(object):
     def _doConnRemove(self, conn):
         # Could be called again during close or disconnection
         if conn in self.connections:
-            self.eventHandler.onDisconnected(self, conn)
             self.connections.remove(conn)
+            self.eventHandler.onDisconnected(self, conn)
             conn.close()
-            self.semaphore.release()
+            conn.semaphore.release()
 
     def _runServer(self):
         while self.running:
-- 
2.43.0


From e61d6f24518aa0b84b805a47bb6bcf0c35ce6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 45/50] fix: python: pompcli could not send a message without
 arguments

The list of arguments was None, which can not be expanded: the message was
not sent at all.
---
 python/pompcli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pompcli.py b/python/pompcli.py
index 090bb68..12a4c49 100755
--- a/python/pompcli.py
+++ b/python/pompcli.py
@@ -72,7 +72,7 @@ class App(object):
         self.hasmsg = False
         self.msgid = 0
         self.msgfmt = None
-        self.msgargs = None
+        self.msgargs = []
         self.ctx = None
         self.timer = None
         self.timerHandler = None
-- 
2.43.0


From f37feddedcb90f2ac39c660bcc11e01111113620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 46/50] fix: python: pompcli died on a malformed message

Exceptions have no 'message' with python 3: reporting the error raised
another one, which ended the main loop.
---
 python/pompcli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pompcli.py b/python/pompcli.py
index 12a4c49..398658a 100755
--- a/python/pompcli.py
+++ b/python/pompcli.py
@@ -113,7 +113,7 @@ class App(object):
             try:
                 self.ctx.send(self.msgid, self.msgfmt, *self.msgargs)
             except pomp.EncodeException as ex:
-                logging.error(ex.message)
+                logging.error(str(ex))
             except Exception as ex:
                 logging.exception(ex)
             self.hasmsg = False
@@ -136,7 +136,7 @@ class App(object):
                 buf = msg.dump()
                 logging.info("MSG: %s", buf)
             except pomp.DecodeException as ex:
-                logging.error(ex.message)
+                logging.error(str(ex))
             except Exception as ex:
                 logging.exception(ex)
 
-- 
2.43.0


From 3d7d4ad7af23018f355524551e384d02ab0a6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 47/50] fix: python: pompcli died on a second disconnection

With several connections and a timeout, the timer is already running when
the second one ends.
---
 python/pompcli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pompcli.py b/python/pompcli.py
index 398658a..c4c823f 100755
--- a/python/pompcli.py
+++ b/python/pompcli.py
@@ -141,7 +141,8 @@ class App(object):
                 logging.exception(ex)
 
     def setupTimeout(self):
-        assert self.timer is None
+        # Restart it if already running
+        self.cancelTimeout()
         self.timer = threading.Timer(self.timeout, self.timerHandler.post, [None])
         self.timer.start()
 
-- 
2.43.0


From 6cbc42e22d7fc149b835dec9368114ab712aa180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 48/50] fix: python: pompcli did not exit before its timeout
 elapsed

The timer set at the start, or by the disconnection during stop, was left
running, and its thread kept the process alive.
---
 python/pompcli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pompcli.py b/python/pompcli.py
index c4c823f..82c3462 100755
--- a/python/pompcli.py
+++ b/python/pompcli.py
@@ -104,6 +104,7 @@ class App(object):
         # Stop everything (wait a little to make sure message is sent)
         time.sleep(0.100)
         self.ctx.stop()
+        self.cancelTimeout()
 
     def onConnected(self, ctx, conn):
         logging.info("CONNECTED")
-- 
2.43.0


From 21e8a45b6905280e22cf30d797f0744799e0e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 49/50] fix: python: pompcli could not send a datagram

The destination address of the usage was taken as the message id, and the
message would have been sent to an unknown peer.
---
 python/pompcli.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/python/pompcli.py b/python/pompcli.py
index 82c3462..03fee31 100755
--- a/python/pompcli.py
+++ b/python/pompcli.py
@@ -65,6 +65,7 @@ class App(object):
     def __init__(self, options):
         self.sockFamily = None
         self.sockAddr = None
+        self.addrTo = None
         self.server = options.server
         self.udp = options.udp
         self.dump = options.dump
@@ -112,7 +113,12 @@ class App(object):
         # Send message once connected
         if self.hasmsg:
             try:
-                self.ctx.send(self.msgid, self.msgfmt, *self.msgargs)
+                if self.udp:
+                    msg = pomp.Message()
+                    msg.write(self.msgid, self.msgfmt, *self.msgargs)
+                    conn.sendMsgTo(msg, self.addrTo)
+                else:
+                    self.ctx.send(self.msgid, self.msgfmt, *self.msgargs)
             except pomp.EncodeException as ex:
                 logging.error(str(ex))
             except Exception as ex:
@@ -176,6 +182,18 @@ def main():
         sys.stderr.write("Missing address\n")
         sys.exit(1)
 
+    # Get destination address (for udp, only with a message)
+    if app.udp and len(args) > 0:
+        try:
+            (_, app.addrTo) = pomp.parseAddr(args[0])
+        except (ValueError, socket.error):
+            sys.stderr.write("Failed to parse address: %s\n" % args[0])
+            sys.exit(1)
+        args = args[1:]
+        if len(args) == 0:
+            sys.stderr.write("Missing message id\n")
+            sys.exit(1)
+
     # Get message id (optional if dumping)
     if len(args) > 0:
         try:
-- 
2.43.0


From 7250c7231248bb267b156eeec47a1ae02e30e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:49 +0000
Subject: [PATCH 50/50] fix: context being stopped tries to connect again

When the stop is requested in the socket callback it is done later, by
the loop. The attempt under way may fail meanwhile and arm the timer:
do not make another one if it triggers before the stop is done.
---
 src/pomp_ctx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_ctx.c b/src/pomp_ctx.c
index e69bf4f..3c0de2e 100644
--- a/src/pomp_ctx.c
+++ b/src/pomp_ctx.c
@@ -887,6 +887,10 @@ static void timer_cb(struct pomp_timer *timer, void *userdata)
 	/* Clear timer */
 	pomp_timer_clear(ctx->timer);
 
+	/* A stop requested in the socket callback will be done later */
+	if (ctx->stopping)
+		return;
+
 	/* Try reconnecting the client/server */
 	switch (ctx->type) {
 	case POMP_CTX_TYPE_SERVER:
-- 
2.43.0

