From 7dea95ee94d019d1ceb943e3430bd6eae55724cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:52 +0000
Subject: [PATCH 01/70] Allow overriding fixed buffer and table sizes at build
 time

With DW_VERIF defined, the sizes of the message buffers, the connection
and request tables and the packet arrays come from DW_VERIF_* defines.
Without it nothing changes.
---
 src/connection.h | 4 ++++
 src/dw_client.c  | 4 ++++
 src/message.h    | 4 ++++
 src/request.h    | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/connection.h b/src/connection.h
index ef2988d..3a47171 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -8,7 +8,11 @@
 #include "message.h"
 #include "request.h"
 
+#ifdef DW_VERIF
+#define MAX_CONNS DW_VERIF_MAX_CONNS
+#else
 #define MAX_CONNS 8192
+#endif
 
 typedef enum {
     NOT_INIT,
diff --git a/src/dw_client.c b/src/dw_client.c
index 09a6d1e..d95d0ae 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -67,7 +67,11 @@ pthread_t receiver[MAX_THREADS];
 #define MIN_SEND_SIZE (sizeof(message_t) + 2 * sizeof(command_t))
 #define MIN_REPLY_SIZE sizeof(message_t)
 
+#ifdef DW_VERIF
+#define MAX_PKTS DW_VERIF_MAX_PKTS
+#else
 #define MAX_PKTS 1000000
+#endif
 #define MAX_RATES 1000000
 
 clockid_t clk_id = CLOCK_REALTIME;
diff --git a/src/message.h b/src/message.h
index ffb523c..f27cfb2 100644
--- a/src/message.h
+++ b/src/message.h
@@ -8,7 +8,11 @@
 #include <sys/socket.h>
 #include <arpa/inet.h>
 
+#ifdef DW_VERIF
+#define BUF_SIZE DW_VERIF_BUF_SIZE
+#else
 #define BUF_SIZE (16*1024*1024)
+#endif
 
 typedef enum { COMPUTE, STORE, LOAD, PSKIP, FORWARD, MULTI_FORWARD, REPLY, EOM } command_type_t;
 
diff --git a/src/request.h b/src/request.h
index a8973ee..5ba34eb 100644
--- a/src/request.h
+++ b/src/request.h
@@ -6,7 +6,11 @@
 
 #include <stdatomic.h>
 
+#ifdef DW_VERIF
+#define MAX_REQS DW_VERIF_MAX_REQS
+#else
 #define MAX_REQS (1u << 16)
+#endif
 
 
 typedef struct req_info_t req_info_t;
-- 
2.43.0


From 460d8aad550213049d8f803018ced79b8c66cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:27 +0000
Subject: [PATCH 02/70] fix: keep the current command of later requests valid
 when an earlier one is removed

Removing a request compacts the receive buffer and moves the messages of the
requests received after it. Their position in the buffer was updated, but not
the pointer to the command to be executed next, so a request waiting for the
storage or for a forward resumed from the wrong command.
---
 src/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection.c b/src/connection.c
index 0e8882c..72c1f86 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -97,6 +97,8 @@ req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
                temp->message_ptr - req_size,
                temp->message_ptr - req_size + req_get_message(temp)->req_size);
         temp->message_ptr -= req_size;
+        if (temp->curr_cmd)
+            temp->curr_cmd = (command_t*)((unsigned char*)temp->curr_cmd - req_size);
     }
 
     if (conn->req_list == req)
-- 
2.43.0


From a305172b4ab7e8bd7a0fc0734dd954a26a52e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:46 +0000
Subject: [PATCH 03/70] fix: append messages right after the bytes still to be
 sent

When a previous message could not be sent entirely, the next one was placed at
an offset computed in units of the message header instead of bytes. The peer
received garbage, or the write went past the end of the send buffer. Pending
bytes are now moved to the beginning of the buffer and the next message follows
them. A message that does not fit is refused instead of aborting the node.
---
 src/connection.c | 15 ++++++++++-----
 src/dw_client.c  |  1 +
 src/dw_node.c    | 10 ++++++++--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 72c1f86..74fb1c6 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -242,8 +242,15 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
-    message_t* m = (message_t*) conn->send_buf + conn->curr_send_size;
-    m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
+    // move the bytes not sent yet to the beginning of the buffer, and append the new message to them
+    if (conn->curr_send_buf != conn->send_buf) {
+        memmove(conn->send_buf, conn->curr_send_buf, conn->curr_send_size);
+        conn->curr_send_buf = conn->send_buf;
+    }
+    if (BUF_SIZE - conn->curr_send_size < sizeof(message_t) + cmd_type_size(EOM))
+        return NULL;
+    message_t* m = (message_t*) (conn->send_buf + conn->curr_send_size);
+    m->req_size = BUF_SIZE - conn->curr_send_size;
     return m;
 }
 
@@ -274,11 +281,9 @@ message_t* conn_next_message(conn_info_t *conn) {
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
-    message_t *m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t *m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     conn->target = target;
     dw_log("SEND starting, conn_id: %d, status: %s, msg_size: %d\n", conn_get_id_by_ptr(conn), conn_status_str(conn->status), m->req_size);
-    if (conn->curr_send_size == 0)
-        conn->curr_send_buf = conn->send_buf;
     // move end of send operation forward by size bytes
     conn->curr_send_size += m->req_size;
 
diff --git a/src/dw_client.c b/src/dw_client.c
index d95d0ae..aa93494 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -128,6 +128,7 @@ void *thread_sender(void *data) {
 
     for (int i = 0; i < num_send_pkts; i++) {
         m = conn_send_message(conn);
+        check(m != NULL, "Not enough room in the send buffer");
         ccmd_dump(ccmd, m);
 
         /* remember time of send relative to ts_start */
diff --git a/src/dw_node.c b/src/dw_node.c
index 428de73..1b6f4f4 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -326,7 +326,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
     message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
-    assert(m_dst->req_size >= fwd.pkt_size);
+    if (m_dst == NULL || m_dst->req_size < fwd.pkt_size) {
+        fprintf(stderr, "Not enough room to forward a message, conn_id: %d\n", fwd_conn_id);
+        return 0;
+    }
 
     command_t *c = cmd_next(cmd);
     while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
@@ -404,7 +407,10 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
     reply_opts_t *opts = cmd_get_opts(reply_opts_t, cmd);
-    assert(m_dst->req_size >= opts->resp_size);
+    if (m_dst == NULL || m_dst->req_size < opts->resp_size) {
+        fprintf(stderr, "Not enough room to reply, conn_id: %d\n", req->conn_id);
+        return 0;
+    }
 
     dw_log("conn_id:%d, m_dst: %p, send_buf: %p\n", req->conn_id, m_dst, conns[req->conn_id].send_buf);
 
-- 
2.43.0


From 6d7041d7b782e425871fb2b0bc89f690999cb04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:04 +0000
Subject: [PATCH 04/70] fix: hand storage commands over by value

The storage thread received a pointer to the command within the receive buffer
of the connection. The connection thread compacts that buffer when another
request completes and frees it when the connection is closed, so the storage
thread could execute the parameters of another request or access freed memory.
---
 src/dw_node.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 1b6f4f4..04471bb 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -124,7 +124,8 @@ typedef struct {
 } storage_worker_info_t;
 
 typedef struct {
-    command_t *cmd;
+    // copy of the STORE or LOAD command, as the receive buffer it comes from may be moved or freed meanwhile
+    unsigned char cmd[sizeof(command_t) + sizeof(store_opts_t)];
     int worker_id;
     int req_id;
 } storage_req_t;
@@ -572,7 +573,7 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
         case STORE:
         case LOAD: {
             storage_req_t w;
-            w.cmd = cmd;
+            memcpy(w.cmd, cmd, cmd_type_size(cmd->cmd));
             w.worker_id = infos->worker_id;
             w.req_id = req->req_id;
 
@@ -903,7 +904,7 @@ void* storage_worker(void* args) {
                     break;
                 }
 
-                storage_cmd = w.cmd;
+                storage_cmd = (command_t *)w.cmd;
                 worker_id = w.worker_id;
                 req_id = w.req_id;
 
-- 
2.43.0


From 53fe38e2adf50d1cb0f78e7909cfb06623dd0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:05 +0000
Subject: [PATCH 05/70] fix: ignore the completion of storage operations of
 closed connections

When the connection was closed while one of its requests was waiting for the
storage, the request did not exist any more on completion of the operation, and
the node crashed on a null pointer.
---
 src/dw_node.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 04471bb..fb9846f 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1043,7 +1043,12 @@ void* conn_worker(void* args) {
                 }
 
                 dw_log("STORAGE ACK for req_id %d\n", req_id_ACK);
-                process_messages(req_get_by_id(req_id_ACK), infos->epollfd, infos);
+                req_info_t *req = req_get_by_id(req_id_ACK);
+                if (req == NULL) {
+                    dw_log("Could not match a STORAGE ACK, req_id:%d - Dropped\n", req_id_ACK);
+                    continue;
+                }
+                process_messages(req, infos->epollfd, infos);
                 //exec_request(infos->epollfd, &events[i], infos);
             } else if (type == TERMINATION) {
                 // no need to disarm signal, since we are killing the node anyway
-- 
2.43.0


From 3bfb8df447250537a421e5cc383ebcfb81271df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:05 +0000
Subject: [PATCH 06/70] fix: do not make loads wait for the periodic sync

A load has no sync option. The option of a store was read all the same, from
whatever follows the load in memory, and depending on it the load was completed
only at the next periodic sync.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index fb9846f..6d72d2d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -919,7 +919,7 @@ void* storage_worker(void* args) {
                     continue;
                 }
 
-                if (!cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
+                if (storage_cmd->cmd != STORE || !cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
                     safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
                 } else {
                     data_t data = {.value=req_id};
-- 
2.43.0


From 29941b5a47c04aaa81defd065244b3f77e72d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:01 +0000
Subject: [PATCH 07/70] fix: keep the connection to a forward target open after
 an answer

The connection was closed as soon as one answer had been received, dropping the
answers to all other requests forwarded over it, which then never completed. In
UDP mode this closed the socket of the node itself. The answer is now removed
from the receive buffer and the connection stays open.
---
 src/connection.c | 10 ++++++++++
 src/connection.h |  3 ++-
 src/dw_node.c    | 13 ++++---------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 74fb1c6..12965c6 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -278,6 +278,16 @@ message_t* conn_next_message(conn_info_t *conn) {
     return m;
 }
 
+void conn_remove_message(conn_info_t *conn, message_t *m) {
+    unsigned long msg_size = m->req_size;
+    unsigned char *msg_end = (unsigned char*) m + msg_size;
+
+    memmove(m, msg_end, conn->curr_recv_buf - msg_end);
+    conn->curr_recv_buf -= msg_size;
+    conn->curr_proc_buf -= msg_size;
+    conn->curr_recv_size += msg_size;
+}
+
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
diff --git a/src/connection.h b/src/connection.h
index 3a47171..9eafc71 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -72,7 +72,8 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size);
 message_t* conn_send_message(conn_info_t *conn);
 /* retrieve next received message in conn's recv buffer */
 message_t* conn_next_message(conn_info_t *conn);
-void conn_remove_message(conn_info_t *conn);
+/* drop the message last returned by conn_next_message() from conn's recv buffer */
+void conn_remove_message(conn_info_t *conn, message_t *m);
 
 int conn_find_existing(struct sockaddr_in target, proto_t proto);
 int conn_find_sock(int sock);
diff --git a/src/dw_node.c b/src/dw_node.c
index 6d72d2d..27f49ba 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -612,15 +612,10 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
         if (message_first_cmd(m)->cmd == EOM) {
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
                                                                            ntohs(conns[conn_id].target.sin_port), m->req_id);
-            if (!handle_forward_reply(m->req_id, epollfd, infos)) {
-                    dw_log("handle_forward_reply() failed\n");
-                    return 0;
-            }
-            //TODO: This causes a disconnection right after the forwad-reply concludes.
-            // This should be removed ASAP, since it deteriorates the performance of subsequent forwards to the same node,
-            // However keeping the connection open causes performance deterioration for all the other operations; 
-            // The reason why has yet to be properly investigated
-            return 0;
+            int req_id = m->req_id;
+            conn_remove_message(conn, m);
+            if (handle_forward_reply(req_id, epollfd, infos) < 0)
+                dw_log("handle_forward_reply() failed\n");
         } else {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
-- 
2.43.0


From 31d21c9149da29bc08eceaf9589f06d6d11d426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:01 +0000
Subject: [PATCH 08/70] fix: look for a free request slot instead of giving up
 on the first busy one

A request pending for long kept its slot busy. When the identifiers wrapped
around to that slot, the connection of an unrelated client was closed although
other slots were free.
---
 src/request.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/request.c b/src/request.c
index 5b61fe7..221a625 100644
--- a/src/request.c
+++ b/src/request.c
@@ -30,11 +30,17 @@ req_info_t* req_free(req_info_t* r) {
 }
 
 req_info_t* req_alloc() {
-    int req_id = atomic_fetch_add(&last_reqs, 1);
-    req_info_t *r = &reqs[req_id % MAX_REQS];
-
-    if (r->req_id != -1)
-        return NULL;
+    int req_id;
+    req_info_t *r;
+    int tries = 0;
+
+    // skip the slots of requests that are still pending
+    do {
+        if (tries++ == MAX_REQS)
+            return NULL;
+        req_id = atomic_fetch_add(&last_reqs, 1);
+        r = &reqs[req_id % MAX_REQS];
+    } while (r->req_id != -1);
 
     r->req_id = req_id;
     r->curr_cmd = NULL;
-- 
2.43.0


From 288c181cebf898e6a3619b82ba082f6256e71595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:27 +0000
Subject: [PATCH 09/70] fix: wait for room in the right socket after an
 incomplete send

The first entry of the connection table was used instead of the connection that
had bytes left to send. The rest of its message was never sent, while another
connection was modified, or the node exited if that entry was unused.
---
 src/dw_node.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 27f49ba..6acaf6b 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -757,8 +757,8 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
         ev2.data.u64 = i2l(SOCKET, conn_id);
         ev2.events = EPOLLIN | EPOLLOUT;
         dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conns->sock, conn_id, conns->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conns->sock, &ev2));
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
         conn_set_status(conn, SENDING);
     }
     if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
@@ -775,7 +775,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     return;
 
  err:
-    if (conns->proto == TCP && conn_get_status(conn) == READY) {
+    if (conn->proto == TCP && conn_get_status(conn) == READY) {
         infos->active_conns--;
     }
     close_and_forget(epollfd, conn->sock);
-- 
2.43.0


From ac08414a38bff404483fc0e6970a888957e320d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:27 +0000
Subject: [PATCH 10/70] fix: do not close a connection whose peer cannot
 receive right now

A send that has to be retried later because the socket buffer is full was taken
as a failure, and the connection was closed together with all its requests.
---
 src/dw_node.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 6acaf6b..fc516d3 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -430,7 +430,9 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     conn_info_t *conn = conn_get_by_id(req->conn_id);
     conn_req_remove(conn, req);
     infos->active_reqs--;
-    return conn_start_send(&conns[req->conn_id], req->target);
+    conn_start_send(conn, req->target);
+    // bytes that could not be sent now will be sent later, unless the connection is gone
+    return conn_get_status(conn) != CLOSE;
 }
 
 void compute_for(unsigned long usecs) {
@@ -743,7 +745,8 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     }
     if (p_ev->events & EPOLLOUT && conn->curr_send_size > 0 && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         dw_log("calling send_mesg()\n");
-        if (!conn_send(conn))
+        conn_send(conn);
+        if (conn_get_status(conn) == CLOSE)
             goto err;
     }
     dw_log("conns[%d].status=%d (%s)\n", conn_id, conn_get_status(conn), conn_status_str(conn_get_status(conn)));
-- 
2.43.0


From 1112b2d9309812e88b536493a93ad59dd3fe2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:41 +0000
Subject: [PATCH 11/70] fix: finish sending replies and forwards that could not
 be sent at once

Waiting for room in the socket buffer was only requested for the connection that
just received something. A reply produced by a storage completion, by the answer
to a forward or by a timeout, and a forwarded message, were left half-sent.

A connection was also counted as active once more each time it was done waiting.
---
 src/dw_node.c | 49 +++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index fc516d3..162a475 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -261,6 +261,7 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 }
 
 void setnonblocking(int fd);
+void update_events(int epollfd, int conn_id);
 
 // cmd_id is the index of the FORWARD item within m->cmds[] here, we
 // remove the first (cmd_id+1) commands from cmds[], and forward the
@@ -352,7 +353,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
 
     if (conn_start_send(&conns[fwd_conn_id], addr) < 0)
         return 0;
-        
+    update_events(epollfd, fwd_conn_id);
+
     if (fwd.timeout) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
@@ -404,6 +406,30 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     return 1;
 }
 
+// wait for room in the socket buffer as long as conn has bytes left to send
+void update_events(int epollfd, int conn_id) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+
+    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
+        struct epoll_event ev2;
+        ev2.data.u64 = i2l(SOCKET, conn_id);
+        ev2.events = EPOLLIN | EPOLLOUT;
+        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
+        conn_set_status(conn, SENDING);
+    }
+    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
+        struct epoll_event ev2;
+        ev2.data.u64 = i2l(SOCKET, conn_id);
+        ev2.events = EPOLLIN;
+        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
+        conn_set_status(conn, READY);
+    }
+}
+
 // returns 1 if reply sent correctly, 0 otherwise
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
@@ -431,6 +457,7 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     conn_req_remove(conn, req);
     infos->active_reqs--;
     conn_start_send(conn, req->target);
+    update_events(infos->epollfd, conn_get_id_by_ptr(conn));
     // bytes that could not be sent now will be sent later, unless the connection is gone
     return conn_get_status(conn) != CLOSE;
 }
@@ -755,25 +782,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     if (!obtain_messages(conn_id, epollfd, infos))
         goto err;
 
-    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN | EPOLLOUT;
-        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, SENDING);
-    }
-    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN;
-        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, READY);
-        infos->active_conns++;
-    }
+    update_events(epollfd, conn_id);
 
     return;
 
-- 
2.43.0


From 36a5bc9b5e16c35a4cba561b27af37a261f46b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:42 +0000
Subject: [PATCH 12/70] fix: do not close a connection when its receive buffer
 is full

Reading into a full buffer returned zero bytes, which was taken as the end of the
connection. Stop reading until a pending request is done and makes room.
---
 src/connection.c |  4 ++++
 src/connection.h |  3 +++
 src/dw_node.c    | 27 ++++++++++++---------------
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 12965c6..fe5c717 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -222,6 +222,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     conns[conn_id].curr_recv_size = BUF_SIZE;
     conns[conn_id].curr_send_buf = conns[conn_id].send_buf;
     conns[conn_id].curr_send_size = 0;
+    conns[conn_id].events = EPOLLIN;
     conns[conn_id].serialize_request = 0;
 
     return conn_id;
@@ -340,6 +341,9 @@ int conn_send(conn_info_t *conn) {
 
 int conn_recv(conn_info_t *conn) {
     int sock = conn->sock;
+    // no room left: go on receiving after some pending request is done
+    if (conn->curr_recv_size == 0)
+        return 1;
     socklen_t recvsize = sizeof(conn->target);
     size_t received = recvfrom(sock, conn->curr_recv_buf, conn->curr_recv_size, 0,
                                (struct sockaddr*)&conn->target, (socklen_t*)&recvsize);
diff --git a/src/connection.h b/src/connection.h
index 9eafc71..bff2f17 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -2,6 +2,7 @@
 #define __CONNECTION_H__
 
 #include <stdint.h>
+#include <sys/epoll.h>
 #include <sys/socket.h>
 #include <pthread.h>
 #include <netinet/in.h>
@@ -41,6 +42,8 @@ typedef struct {
     unsigned char *curr_send_buf; // curr ptr in send buffer while SENDING
     unsigned long curr_send_size; // size of leftover data to send
 
+    uint32_t events;              // epoll events being waited for once READY
+
     req_info_t *req_list;
     unsigned int serialize_request;
     pthread_t parent_thread;
diff --git a/src/dw_node.c b/src/dw_node.c
index 162a475..0c279c6 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -406,28 +406,25 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     return 1;
 }
 
-// wait for room in the socket buffer as long as conn has bytes left to send
+// wait for room in the socket buffer as long as conn has bytes left to send, and
+// for further bytes as long as there is room for them in the receive buffer
 void update_events(int epollfd, int conn_id) {
     conn_info_t *conn = conn_get_by_id(conn_id);
 
-    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN | EPOLLOUT;
-        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, SENDING);
-    }
-    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
+    if (conn_get_status(conn) != READY && conn_get_status(conn) != SENDING)
+        return;
+
+    uint32_t events = (conn->curr_recv_size > 0 ? EPOLLIN : 0) | (conn->curr_send_size > 0 ? EPOLLOUT : 0);
+    if (events != conn->events) {
         struct epoll_event ev2;
         ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN;
-        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
+        ev2.events = events;
+        dw_log("waiting for events=%#x for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               events, conn->sock, conn_id, conn->curr_send_size);
         sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, READY);
+        conn->events = events;
     }
+    conn_set_status(conn, conn->curr_send_size > 0 ? SENDING : READY);
 }
 
 // returns 1 if reply sent correctly, 0 otherwise
-- 
2.43.0


From 643d9d6241081297089a25a6de28e77e52bea281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:42 +0000
Subject: [PATCH 13/70] fix: forget the requests of a closed connection

The list of pending requests was kept after releasing them. They were released
again, when possibly in use for other connections, and the next connection using
the same entry started with them in its list.
---
 src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection.c b/src/connection.c
index fe5c717..7798d89 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -76,6 +76,7 @@ req_info_t* conn_req_add(conn_info_t *conn) {
 static void conn_reset(conn_info_t *conn) {
     for (req_info_t *temp = conn->req_list; temp != NULL; temp = req_free(temp))
         ;
+    conn->req_list = NULL;
 }
 
 req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
-- 
2.43.0


From e1dcd8c82fdf8f371f26a479944f5cfd822859ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:42 +0000
Subject: [PATCH 14/70] fix: release the connection entry when its buffers
 cannot be allocated

---
 src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection.c b/src/connection.c
index 7798d89..3d97e0e 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -229,6 +229,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     return conn_id;
 
  continue_free:
+    atomic_store(&conns[conn_id].busy, 0);
 
     if (new_recv_buf)
         free(new_recv_buf);
-- 
2.43.0


From eaae90c5fec7da4e1b2e8a0b9efbba47b4edde3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:58 +0000
Subject: [PATCH 15/70] fix: keep the UDP socket open after an empty datagram
 or a failed send

Both were handled as a connection closed by its peer. The node closed the only
socket it receives requests from, and did not answer anyone any more.
---
 src/connection.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/connection.c b/src/connection.c
index 3d97e0e..720d01e 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -317,6 +317,14 @@ int conn_send(conn_info_t *conn) {
     }
 
     if (sent == -1) {
+        if (conn->proto == UDP) {
+            // there is no connection to lose nor to resume: only this datagram is lost
+            fprintf(stderr, "SEND datagram lost: %s\n", strerror(errno));
+            conn->curr_send_buf = conn->send_buf;
+            conn->curr_send_size = 0;
+            return 0;
+        }
+
         if (errno == EAGAIN || errno == EWOULDBLOCK) {
             dw_log("SEND Got EAGAIN or EWOULDBLOCK, ignoring...\n");
             return 0;
@@ -351,6 +359,9 @@ int conn_recv(conn_info_t *conn) {
                                (struct sockaddr*)&conn->target, (socklen_t*)&recvsize);
     dw_log("RECV returned: %d\n", (int)received);
     if (received == 0) {
+        // an empty datagram does not mean anything
+        if (conn->proto == UDP)
+            return 1;
         dw_log("RECV connection closed by remote end\n");
         return 0;
     } else if (received == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
-- 
2.43.0


From 0ef401bdd8664d58cbe66b8ef2968bc12b03d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:20 +0000
Subject: [PATCH 16/70] fix: only forward through connections of the same
 worker and protocol

A forward could use the connection that another worker had opened to the same
target, or one already found to be closed. A forward over UDP could use any
socket of the worker, including the TCP connection of a client.
---
 src/connection.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 720d01e..54123ad 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -115,12 +115,12 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
 
     pthread_t curr_thread = pthread_self();
     for (int i = 0; i < MAX_CONNS; i++) {
-        if (conns[i].sock == -1)
+        if (conns[i].sock == -1 || conns[i].parent_thread != curr_thread || conns[i].proto != proto || conns[i].status == CLOSE)
             continue;
-        if (proto == UDP && conns[i].parent_thread == curr_thread) {
+        if (proto == UDP) {
             rv = i;
             break;
-        } else if (proto == TCP && conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr && conns[i].proto == proto) {
+        } else if (proto == TCP && conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr) {
             rv = i;
             break;
         }
@@ -209,13 +209,13 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     if (!new_recv_buf || !new_send_buf)
         goto continue_free;
 
+    conns[conn_id].parent_thread = pthread_self();
     conns[conn_id].proto = proto;
     conns[conn_id].target = target;
     conns[conn_id].sock = conn_sock;
     conns[conn_id].status = (proto == TCP ? NOT_INIT : READY);
     conns[conn_id].recv_buf = new_recv_buf;
     conns[conn_id].send_buf = new_send_buf;
-    conns[conn_id].parent_thread = pthread_self(); 
 
     dw_log("CONN allocated, conn_id: %d\n", conn_id);
     conns[conn_id].curr_recv_buf = conns[conn_id].recv_buf;
-- 
2.43.0


From a5a816162157deb67ffca746bd35a408f7d9601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:20 +0000
Subject: [PATCH 17/70] fix: receive the answers to forwards over UDP

The socket used for forwarding over UDP was never waited on, so the request was
never resumed.
---
 src/dw_node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index 0c279c6..1263adb 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -322,6 +322,11 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
                 conn_set_status_by_id(fwd_conn_id, READY);
                 infos->active_conns++;
             }
+        } else {
+            struct epoll_event ev;
+            ev.events = EPOLLIN;
+            ev.data.u64 = i2l(SOCKET, fwd_conn_id);
+            sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, clientSocket, &ev));
         }
     }
 
-- 
2.43.0


From a3d9d0450bf5cef138a43024074c32d76d3de77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:20 +0000
Subject: [PATCH 18/70] fix: cancel the forward timeouts of the requests of a
 closed connection

The timeout of a lost request stayed first in the queue. It was never removed, and
no other timeout was handled afterwards.
---
 src/dw_node.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index 1263adb..10e069e 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -789,6 +789,8 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     return;
 
  err:
+    for (req_info_t *req = conn->req_list; req != NULL; req = req->next)
+        remove_timeout(infos, req->req_id, epollfd);
     if (conn->proto == TCP && conn_get_status(conn) == READY) {
         infos->active_conns--;
     }
-- 
2.43.0


From bfbb975765006ca65e7524fe502e6e17e88391cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:32 +0000
Subject: [PATCH 19/70] fix: count active connections and requests once

Connections that were sending or failed when closed, and the requests pending on a
closed connection, stayed in the counters. With the parent accept mode, the worker
that accepts counted connections that other workers closed.
---
 src/dw_node.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 10e069e..07cf0d6 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -789,9 +789,11 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     return;
 
  err:
-    for (req_info_t *req = conn->req_list; req != NULL; req = req->next)
+    for (req_info_t *req = conn->req_list; req != NULL; req = req->next) {
         remove_timeout(infos, req->req_id, epollfd);
-    if (conn->proto == TCP && conn_get_status(conn) == READY) {
+        infos->active_reqs--;
+    }
+    if (conn->proto == TCP && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         infos->active_conns--;
     }
     close_and_forget(epollfd, conn->sock);
@@ -1036,11 +1038,11 @@ void* conn_worker(void* args) {
                 }
 
                 conn_set_status_by_id(conn_id, READY);
-                infos->active_conns++;
                 ev.events = EPOLLIN;
                 ev.data.u64 = i2l(SOCKET, conn_id);
 
                 int next_thread_id = accept_mode == AM_PARENT ? (atomic_fetch_add(&next_thread_cnt, 1) % conn_threads) : (infos - conn_worker_infos);
+                conn_worker_infos[next_thread_id].active_conns++;
                 if (epoll_ctl(conn_worker_infos[next_thread_id].epollfd, EPOLL_CTL_ADD, conn_sock, &ev) < 0)
                         perror("epoll_ctl() failed");
                 dw_log("conn_id: %d assigned to connw-%d\n", conn_id, conn_worker_infos[next_thread_id].worker_id);
-- 
2.43.0


From 082ac1dca62319f66ceddd0bf8a018ea0d77d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:32 +0000
Subject: [PATCH 20/70] fix: handle the other events found together with a
 statistics request

They were skipped. Level-triggered ones were found again, but the completion of a
connection to a forward target is only reported once.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 07cf0d6..adbfdd8 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1092,7 +1092,7 @@ void* conn_worker(void* args) {
                 printf("[%ld.%09ld][%s] STATS total-active-conns: %d, total-active-reqs: %d\n", ts.tv_sec, ts.tv_nsec, thread_name, 
                                                                                             total_active_conns, total_active_reqs);
 
-                break;
+                continue;
             } else {
                 exec_request(infos->epollfd, &events[i], infos);
             }
-- 
2.43.0


From 4ac906924a7fc869ab60660c2cc551a913c474a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:57 +0000
Subject: [PATCH 21/70] fix: close the connection when a resumed request cannot
 go on

A reply or forward that failed after a storage completion, the answer to a forward
or a timeout was only logged, and its request stayed pending forever.
---
 src/dw_node.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index adbfdd8..aa59e46 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -464,6 +464,16 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     return conn_get_status(conn) != CLOSE;
 }
 
+// give up on the connection of a request that cannot go on: the resulting event gets it closed
+void abort_conn(int conn_id) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+
+    if (conn->proto == TCP) {
+        conn_set_status(conn, CLOSE);
+        shutdown(conn->sock, SHUT_RDWR);
+    }
+}
+
 void compute_for(unsigned long usecs) {
     struct timespec ts_beg, ts_end;
     dw_log("COMPUTE: computing for %lu usecs\n", usecs);
@@ -625,9 +635,12 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
 }
 
 int process_messages(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
+    int conn_id = req->conn_id;
     int executed = process_single_message(req, epollfd, infos);
-    if (executed && conns[req->conn_id].serialize_request)
-        return obtain_messages(req->conn_id, epollfd, infos);
+    if (executed < 0)
+        abort_conn(conn_id);
+    else if (executed && conns[conn_id].serialize_request)
+        return obtain_messages(conn_id, epollfd, infos);
     return executed;
 }
 
-- 
2.43.0


From c17d5a73e419d9633609eef573603e13ef33626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:58 +0000
Subject: [PATCH 22/70] fix: only drop the failed request when serving over UDP

The socket was closed instead, and the node did not answer anyone any more.
---
 src/dw_node.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index aa59e46..fe02952 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -468,10 +468,15 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
 void abort_conn(int conn_id) {
     conn_info_t *conn = conn_get_by_id(conn_id);
 
-    if (conn->proto == TCP) {
-        conn_set_status(conn, CLOSE);
-        shutdown(conn->sock, SHUT_RDWR);
-    }
+    conn_set_status(conn, CLOSE);
+    shutdown(conn->sock, SHUT_RDWR);
+}
+
+// give up on a request only
+void abort_req(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
+    remove_timeout(infos, req->req_id, epollfd);
+    conn_req_remove(conn_get_by_id(req->conn_id), req);
+    infos->active_reqs--;
 }
 
 void compute_for(unsigned long usecs) {
@@ -637,7 +642,9 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
 int process_messages(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
     int conn_id = req->conn_id;
     int executed = process_single_message(req, epollfd, infos);
-    if (executed < 0)
+    if (executed < 0 && conns[conn_id].proto == UDP)
+        abort_req(req, epollfd, infos);
+    else if (executed < 0)
         abort_conn(conn_id);
     else if (executed && conns[conn_id].serialize_request)
         return obtain_messages(conn_id, epollfd, infos);
@@ -664,6 +671,10 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
                 fprintf(stderr, "conn_req_add() failed\n");
+                if (conn->proto == UDP) {
+                    conn_remove_message(conn, m);
+                    continue;
+                }
                 return 0;
             }
             infos->active_reqs++;
@@ -672,7 +683,9 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
             req->curr_cmd = message_first_cmd(m);
             int executed = process_single_message(req, epollfd, infos);
 
-            if (executed < 0)
+            if (executed < 0 && conn->proto == UDP)
+                abort_req(req, epollfd, infos);
+            else if (executed < 0)
                 return 0;
 
             if (!executed && conns[conn_id].serialize_request) {
-- 
2.43.0


From 09c17d3d97777d3839b32c87327aa0e4ed6d6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:14 +0000
Subject: [PATCH 23/70] fix: compute forward deadlines without drift

The time elapsed since the previous deadline was added twice, so deadlines set
while others were pending came too late. When two deadlines were due at the same
time, the timer was disarmed instead of being set for the second one.
---
 src/dw_node.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index fe02952..2290471 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -82,8 +82,6 @@ typedef struct {
     int epollfd;
 
     pqueue_t *timeout_queue;
-    int time_elapsed;
-
     // communication with storage
     int storefd; // write
     int store_replyfd; // read
@@ -203,11 +201,8 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     if (pqueue_size(infos->timeout_queue) > 0) {
         struct itimerspec timerspec = {0};
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-        new_micros += infos->time_elapsed;
         new_micros += pqueue_node_key(pqueue_top(infos->timeout_queue));
         new_micros -= its_to_us(timerspec);
-    } else {
-        infos->time_elapsed = 0;
     }
 
     req->timeout_node = pqueue_insert(infos->timeout_queue, new_micros, data);
@@ -243,14 +238,14 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
     }
 
     if (pqueue_size(infos->timeout_queue) > 0) {
-        int next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue));
-        sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-        infos->time_elapsed = time_elapsed;
-        timerspec = us_to_its(next_timeout - time_elapsed);
+        int next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue)) - time_elapsed;
+        // setting the timer to 0 would disarm it
+        if (next_timeout <= 0)
+            next_timeout = 1;
+        timerspec = us_to_its(next_timeout);
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
-        dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_timeout - time_elapsed);
+        dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_timeout);
     } else {
-        infos->time_elapsed = 0;
         timerspec = us_to_its(0);
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
         dw_log("TIMEOUT removed, req_id: %d, timer disarmed.\n", req_id);
-- 
2.43.0


From 0b774fa66b52fee32e7d4c5cdb3d4747f216fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:14 +0000
Subject: [PATCH 24/70] fix: do not expire a timeout early when the expired one
 was just answered

If the expiration of a timeout and the answer it waits for were found together, the
next timeout in the queue was handled as if expired.
---
 src/dw_node.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index 2290471..0b371ca 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -724,6 +724,12 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     if (!pqueue_size(infos->timeout_queue))
         return;
 
+    // the expired timeout may have been removed in the meanwhile, and the timer set for the next one
+    struct itimerspec timerspec = {0};
+    sys_check(timerfd_gettime(infos->timerfd, &timerspec));
+    if (timerspec.it_value.tv_sec != 0 || timerspec.it_value.tv_nsec != 0)
+        return;
+
     int req_id = pqueue_node_data(pqueue_top(infos->timeout_queue)).value;
     req_info_t *req = req_get_by_id(req_id);
     if (!req)
-- 
2.43.0


From 63145700bc27b1331a5ac41af7bc4d36d5b158f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:27 +0000
Subject: [PATCH 25/70] fix: let any forward time out

Timeouts were ignored unless the identifier chosen by the client was the same as
the internal one of the request. They were also ignored for forwards to multiple
targets, each of which left in the queue a timeout that was never removed.
---
 src/dw_node.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 0b371ca..f0052a2 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -355,7 +355,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
         return 0;
     update_events(epollfd, fwd_conn_id);
 
-    if (fwd.timeout) {
+    // a single timeout covers all targets of a MULTI_FORWARD
+    if (fwd.timeout && req->timeout_node == NULL) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
 
@@ -741,9 +742,9 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     remove_timeout(infos, req_id, epollfd);
 
     command_t *p_cmd = req->curr_cmd;
-    // if curr_cmd is no more on MULTI_FORWARD, ignore
+    // if curr_cmd is no more on FORWARD or MULTI_FORWARD, ignore
     // TODO: case with 2 independent (non-nested) forwards in same req
-    if (p_cmd->cmd != FORWARD || m->req_id != req_id)
+    if (p_cmd->cmd != FORWARD && p_cmd->cmd != MULTI_FORWARD)
         return;
     fwd_opts_t *fwd = cmd_get_opts(fwd_opts_t, p_cmd);
     if (fwd->retries > 0) {
-- 
2.43.0


From fea66a83524e30aa5839eda2d74d134768758dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:40 +0000
Subject: [PATCH 26/70] fix: count the answers of each forward separately

The number of answers to wait for was only set for the first forward of a request.
An answer in excess made the request skip the command it was executing.
---
 src/dw_node.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index f0052a2..b3df8e6 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -339,6 +339,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t* reply_cmd = message_copy_tail(m, m_dst, c);
+    if (reply_cmd == NULL) {
+        fprintf(stderr, "Not enough room to forward a message, conn_id: %d\n", fwd_conn_id);
+        return 0;
+    }
     m_dst->req_id = req->req_id;
     m_dst->req_size = fwd.pkt_size;
 
@@ -360,8 +364,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
 
-    if (req->fwd_replies_left == -1)
-        req->fwd_replies_left = cmd_get_opts(reply_opts_t, reply_cmd)->n_ack;
+    req->fwd_replies_left = cmd_get_opts(reply_opts_t, reply_cmd)->n_ack;
+    // at least one answer is needed to go on
+    if (req->fwd_replies_left <= 0)
+        req->fwd_replies_left = 1;
 
     return 1;
 }
@@ -393,7 +399,12 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     }
 
     dw_log("Found match with conn_id %d\n", req->conn_id);
-        
+
+    if (req->fwd_replies_left <= 0) {
+        dw_log("Surplus response to FORWARD, req_id:%d - Dropped\n", req_id);
+        return 1;
+    }
+
     if (--(req->fwd_replies_left) <= 0) {
         message_t *m = req_get_message(req);
 
@@ -756,6 +767,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
         dw_log("TIMEOUT expired, failed, skipping: %d\n", fwd->on_fail_skip);
         
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, fwd->on_fail_skip);
+        req->fwd_replies_left = -1;
         m->status = -1;
         process_messages(req, epollfd, infos);
     } else {
-- 
2.43.0


From 8fa32ad60727a4351edb9d8a41fc2f28d27011f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:40 +0000
Subject: [PATCH 27/70] fix: never match an answer with an unused request

---
 src/request.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/request.h b/src/request.h
index 5ba34eb..3e6894a 100644
--- a/src/request.h
+++ b/src/request.h
@@ -39,7 +39,8 @@ static inline message_t* req_get_message(req_info_t *r) {
 }
 
 static inline req_info_t *req_get_by_id(int req_id) {
-    if (reqs[req_id % MAX_REQS].req_id != req_id)
+    // -1 marks unused requests
+    if (req_id == -1 || reqs[req_id % MAX_REQS].req_id != req_id)
         return NULL;
     return &reqs[req_id % MAX_REQS];
 }
-- 
2.43.0


From 9e41c9d113a1c891ce3068168483ce339b00487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:23 +0000
Subject: [PATCH 28/70] fix: tell the late answers to a forward from the
 answers to the next one

An answer that was not needed any more, or came after its timeout, was counted as
an answer to the next forward of the same request.
---
 src/dw_node.c | 2 ++
 src/request.c | 6 ++++++
 src/request.h | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index b3df8e6..d4cebd3 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -411,6 +411,7 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, 1);
         
         remove_timeout(infos, req_id, epollfd);
+        req_renew_id(req);
 
         return process_messages(req, epollfd, infos);
     }
@@ -768,6 +769,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
         
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, fwd->on_fail_skip);
         req->fwd_replies_left = -1;
+        req_renew_id(req);
         m->status = -1;
         process_messages(req, epollfd, infos);
     } else {
diff --git a/src/request.c b/src/request.c
index 221a625..315af7d 100644
--- a/src/request.c
+++ b/src/request.c
@@ -29,6 +29,12 @@ req_info_t* req_free(req_info_t* r) {
     return next;
 }
 
+void req_renew_id(req_info_t* r) {
+    do {
+        r->req_id = (unsigned)r->req_id + (MAX_REQS << 8);
+    } while (r->req_id == -1);
+}
+
 req_info_t* req_alloc() {
     int req_id;
     req_info_t *r;
diff --git a/src/request.h b/src/request.h
index 3e6894a..016bcb3 100644
--- a/src/request.h
+++ b/src/request.h
@@ -33,6 +33,8 @@ void req_init();
 
 req_info_t* req_alloc();
 req_info_t* req_free(req_info_t *r);
+/* change the id of a pending request, so that messages referring to the old one do not match any more */
+void req_renew_id(req_info_t *r);
 
 static inline message_t* req_get_message(req_info_t *r) {
     return (message_t*)r->message_ptr;
-- 
2.43.0


From 524d54f66747d476749d4759771803ffc8427c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:17 +0000
Subject: [PATCH 29/70] fix: keep a multiple forward nested right inside a
 single forward

It was left out of the forwarded message, together with the answers to wait for,
and the request was never replied to.
---
 src/dw_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index d4cebd3..4f49f2e 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -334,7 +334,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t *c = cmd_next(cmd);
-    while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
+    // skip the other targets of the same MULTI_FORWARD
+    while (cmd->cmd == MULTI_FORWARD && c->cmd == MULTI_FORWARD) {
         c = cmd_next(c);
     }
 
-- 
2.43.0


From d8d0c8458791261994aac525ccaadbb8cbbdb314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:37 +0000
Subject: [PATCH 30/70] fix: use all the 64 bits of storage offsets

Stores and loads at 4 GiB and beyond went to the offset modulo 4 GiB.
---
 src/dw_node.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 4f49f2e..ce4cacf 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -507,7 +507,7 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = store_opts->store_nbytes;
-    uint32_t offset = store_opts->offset;
+    uint64_t offset = store_opts->offset;
     uint8_t wait_sync = store_opts->wait_sync;
 
     // Round-up total_bytes to the nearest multiple of blk_size when using O_DIRECT
@@ -516,7 +516,7 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
         offset = (offset + blk_size - 1) / blk_size * blk_size;
     }
 
-    if (offset != -1) {
+    if (offset != (uint64_t) -1) {
         if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
             perror("lseek() failed");
             return; // @todo propagate error
@@ -559,10 +559,10 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = load_opts->load_nbytes;
-    uint32_t offset = load_opts->offset;
+    uint64_t offset = load_opts->offset;
 
     dw_log("LOAD: loading %lu bytes from %d offset\n", total_bytes, (int) offset);
-    if (offset != -1) {
+    if (offset != (uint64_t) -1) {
         if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
             perror("lseek() failed");
             return; // @todo propagate error
-- 
2.43.0


From 8d9c704c1c8babe57a5b78ff15fc0d5e8da6287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:37 +0000
Subject: [PATCH 31/70] fix: storage commands with --odirect

Stores without an offset always went to the start of the file, because
the missing offset was rounded up to a block as well.
Loads were not rounded to whole blocks, so that the node stopped at the
first load of any other size.
---
 src/dw_node.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index ce4cacf..b231977 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -513,7 +513,8 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     // Round-up total_bytes to the nearest multiple of blk_size when using O_DIRECT
     if (storage_info->use_odirect) {
         total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
-        offset = (offset + blk_size - 1) / blk_size * blk_size;
+        if (offset != (uint64_t) -1)
+            offset = (offset + blk_size - 1) / blk_size * blk_size;
     }
 
     if (offset != (uint64_t) -1) {
@@ -561,6 +562,12 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     size_t total_bytes = load_opts->load_nbytes;
     uint64_t offset = load_opts->offset;
 
+    if (storage_info->use_odirect) {
+        total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
+        if (offset != (uint64_t) -1)
+            offset = (offset + blk_size - 1) / blk_size * blk_size;
+    }
+
     dw_log("LOAD: loading %lu bytes from %d offset\n", total_bytes, (int) offset);
     if (offset != (uint64_t) -1) {
         if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
-- 
2.43.0


From 734884747266352d274491b60737e1c62130c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:55 +0000
Subject: [PATCH 32/70] fix: keep track of the storage offset when a load wraps
 around

A load that reached the end of the file went on from its beginning, but
the offset of the next access was computed as if it had not.
---
 src/dw_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index b231977..c7f028a 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -592,7 +592,8 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
 
         read_bytes += bytes;
     }
-    storage_info->storage_offset += total_bytes;
+    // reading restarts from the beginning at the end of the file
+    storage_info->storage_offset = lseek(storage_info->storage_fd, 0, SEEK_CUR);
 }
 
 // this invalidates the conn_info_t in conns[] referring sock, if any
-- 
2.43.0


From 81e149e3782b0c5d0901758758fc694297c564e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:38 +0000
Subject: [PATCH 33/70] fix: sync the storage when the queue of waiting
 requests is full

Requests of connections closed in the meantime stay in the queue until
the next periodic sync, so that it could grow beyond its capacity.
---
 src/dw_node.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index c7f028a..f5b60ce 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -851,6 +851,19 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     conn_free(conn_id);
 }
 
+// sync the storage and resume the requests waiting for it
+void sync_storage(storage_worker_info_t *infos) {
+    fsync(infos->storage_info.storage_fd);
+
+    while (pqueue_size(infos->sync_waiting_queue) > 0) {
+        int worker_id = pqueue_node_key(pqueue_top(infos->sync_waiting_queue));
+        int req_id = pqueue_node_data(pqueue_top(infos->sync_waiting_queue)).value;
+
+        pqueue_pop(infos->sync_waiting_queue);
+        safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
+    }
+}
+
 void* storage_worker(void* args) {
     storage_worker_info_t *infos = (storage_worker_info_t *)args;
     infos->sync_waiting_queue = pqueue_alloc(MAX_REQS);
@@ -944,15 +957,7 @@ void* storage_worker(void* args) {
                     break;
                 }
 
-                fsync(infos->storage_info.storage_fd);
-
-                while (pqueue_size(infos->sync_waiting_queue) > 0) {
-                    int worker_id = pqueue_node_key(pqueue_top(infos->sync_waiting_queue));
-                    int req_id = pqueue_node_data(pqueue_top(infos->sync_waiting_queue)).value;
-
-                    pqueue_pop(infos->sync_waiting_queue);
-                    safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
-                }
+                sync_storage(infos);
 
                 // Too expensive??
                 dw_log("storage sync...\n");
@@ -988,6 +993,9 @@ void* storage_worker(void* args) {
                 } else {
                     data_t data = {.value=req_id};
                     pqueue_insert(infos->sync_waiting_queue, worker_id, data);
+                    // requests of closed connections may still be waiting, too
+                    if (pqueue_size(infos->sync_waiting_queue) == pqueue_capacity(infos->sync_waiting_queue))
+                        sync_storage(infos);
                 }
             } else {
                 fprintf(stderr, "Unknown event in storage server - skipping");
-- 
2.43.0


From 7455922f8dd85c1ccf72f0c2cd6368d92f06847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:26 +0000
Subject: [PATCH 34/70] fix: do not block when another worker accepts the
 connection

With the shared accept mode, all the workers are woken up by a new
connection.
All but one of them then waited in accept() for the next connection,
without serving the ones they already had.
---
 src/dw_node.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index f5b60ce..ee9dc21 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1080,7 +1080,10 @@ void* conn_worker(void* args) {
                 struct sockaddr_in addr;
                 socklen_t addr_size = sizeof(addr);
                 int conn_sock;
-                sys_check(conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size));
+                conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size);
+                if (conn_sock < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == ECONNABORTED))
+                    continue;
+                sys_check(conn_sock);
 
                 dw_log("Accepted connection from: %s:%d\n",
                        inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
@@ -1329,8 +1332,11 @@ void init_listen_sock(int i, accept_mode_t accept_mode, proto_t proto, struct so
         dw_log("Node bound to %s:%d (with protocol: %s)\n", inet_ntoa(serverAddr.sin_addr), ntohs(serverAddr.sin_port), proto_str(proto));
 
         /*---- Listen on the socket, with 5 max connection requests queued ----*/
-        if (proto == TCP)
+        if (proto == TCP) {
             sys_check(listen(conn_worker_infos[i].listen_sock, listen_backlog));
+            // with a shared queue, another worker may be the first to accept a connection
+            setnonblocking(conn_worker_infos[i].listen_sock);
+        }
         dw_log("Accepting new connections (max backlog: %d)...\n", listen_backlog);
     } else if (accept_mode == AM_SHARED) {
         conn_worker_infos[i].listen_sock = conn_worker_infos[0].listen_sock;
-- 
2.43.0


From 6972536c2cc7871c7648dda5b2a63e0648ce40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:20 +0000
Subject: [PATCH 35/70] fix: take a free request slot atomically

Two workers could take the same slot when all the others are in use.
---
 src/request.c | 6 +++---
 src/request.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.c b/src/request.c
index 315af7d..6dcaab1 100644
--- a/src/request.c
+++ b/src/request.c
@@ -36,7 +36,7 @@ void req_renew_id(req_info_t* r) {
 }
 
 req_info_t* req_alloc() {
-    int req_id;
+    int req_id, unused;
     req_info_t *r;
     int tries = 0;
 
@@ -46,9 +46,9 @@ req_info_t* req_alloc() {
             return NULL;
         req_id = atomic_fetch_add(&last_reqs, 1);
         r = &reqs[req_id % MAX_REQS];
-    } while (r->req_id != -1);
+        unused = -1;
+    } while (!atomic_compare_exchange_strong(&r->req_id, &unused, req_id));
 
-    r->req_id = req_id;
     r->curr_cmd = NULL;
     r->fwd_replies_left = -1;
     r->next = NULL;
diff --git a/src/request.h b/src/request.h
index 016bcb3..292e9d0 100644
--- a/src/request.h
+++ b/src/request.h
@@ -16,7 +16,7 @@
 typedef struct req_info_t req_info_t;
 
 struct req_info_t {
-    int req_id;
+    atomic_int req_id;
     int conn_id;
     struct sockaddr_in target;
     int fwd_replies_left;
-- 
2.43.0


From 54eb2a0db27859bcaaf8804ef3ad124edd8cf293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:54 +0000
Subject: [PATCH 36/70] fix: do not skip a whole session when the last reply of
 the previous one is lost

The number of packets to skip up to the end of the session was a full session
when the connection was lost while waiting for the last reply.
---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index aa93494..88bddac 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -304,7 +304,7 @@ void *thread_receiver(void *data) {
         if (m == NULL) {
             printf("Error: cannot read received message\n");
             unsigned long skip_pkts =
-                pkts_per_session - ((i + 1) % pkts_per_session);
+                pkts_per_session - 1 - (i % pkts_per_session);
             printf("Fast-forwarding i by %lu pkts\n", skip_pkts);
             i += skip_pkts;
             goto skip;
-- 
2.43.0


From 1c6fde0696ae9f08a25528bdfe3e65351e8c4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:54 +0000
Subject: [PATCH 37/70] fix: wait for the sender thread before releasing its
 connection

When the server drops a connection, the sender may still be sending on it.
The client closed the socket and freed the buffers under its feet, so that it
crashed or sent data on the socket of another session.
---
 src/dw_client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 88bddac..25ab5d3 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -336,6 +336,10 @@ void *thread_receiver(void *data) {
             dw_log(
                 "Session is over (after receive of pkt %d), closing socket\n",
                 i);
+            // let the sender stop using the connection before releasing it
+            shutdown(clientSocket[thread_id], SHUT_RDWR);
+            dw_log("Joining sender thread\n");
+            pthread_join(sender[thread_id], NULL);
             close(clientSocket[thread_id]);
             conn_free(thr_data.conn_id);
             if (use_per_session_output) {
@@ -358,8 +362,6 @@ void *thread_receiver(void *data) {
                 memset(&usecs_send[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
                 memset(&usecs_elapsed[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
             }
-            dw_log("Joining sender thread\n");
-            pthread_join(sender[thread_id], NULL);
         }
     }
 
-- 
2.43.0


From 2f9b10b5b4f6f3bd5d14ce99a0607c83bf589d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:54 +0000
Subject: [PATCH 38/70] fix: make room for the next replies in the receive
 buffer of the client

The client never released the replies already handled.  It stopped making
progress as soon as the replies of a session exceeded the buffer.
---
 src/dw_client.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 25ab5d3..188306a 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -312,12 +312,16 @@ void *thread_receiver(void *data) {
         }
 
         unsigned pkt_id = m->req_id;
+        int status = m->status;
 
 #ifdef DW_DEBUG
         msg_log(m, "received message: ");
 #endif
 
-        if (m->status != 0) {
+        // make room for the next replies
+        conn_remove_message(conn, m);
+
+        if (status != 0) {
             dw_log("REPLY reported an error\n");
             goto skip;
         }
-- 
2.43.0


From ea4f3af063a587366ab69a6d4b769649583debb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:54 +0000
Subject: [PATCH 39/70] fix: do not report packets that were never sent

Their send and elapsed times were read from uninitialised memory.
---
 src/dw_client.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 188306a..fff8aca 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -372,6 +372,9 @@ void *thread_receiver(void *data) {
     if (!use_per_session_output) {
         for (int i = 0; i < num_pkts; i++) {
             int sess_id = i / pkts_per_session;
+            // packets never sent because of an abruptly terminated session
+            if (usecs_send[thread_id][i] == 0)
+                continue;
             printf(
                 "t: %ld us, elapsed: %ld us, req_id: %d, thr_id: %d, sess_id: "
                 "%d\n",
@@ -845,8 +848,8 @@ int main(int argc, char *argv[]) {
     for (int i = 0; i < MAX_THREADS; i++) {
         clientSocket[i] = -1;
         if (i < input_args.num_threads) {
-            check(usecs_send[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
-            check(usecs_elapsed[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
+            check(usecs_send[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
+            check(usecs_elapsed[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
         } else {
             usecs_send[i] = NULL;
             usecs_elapsed[i] = NULL;
-- 
2.43.0


From 8fb1a5e4f3cd6ccf2a4c5d53dfb7463a7a281b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:26 +0000
Subject: [PATCH 40/70] fix: never send a message shorter than its commands

A small packet size cut the list of commands, and the node read past the end of
the message.  Lists that do not fit in the send buffer are now refused instead
of being written past its end.
---
 src/dw_client.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index fff8aca..8460cda 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -129,7 +129,11 @@ void *thread_sender(void *data) {
     for (int i = 0; i < num_send_pkts; i++) {
         m = conn_send_message(conn);
         check(m != NULL, "Not enough room in the send buffer");
-        ccmd_dump(ccmd, m);
+        // leave room for the header
+        m->req_size -= sizeof(message_t);
+        uint32_t avail_size = m->req_size;
+        check(ccmd_dump(ccmd, m) == 1, "Not enough room in the send buffer");
+        uint32_t min_size = sizeof(message_t) + avail_size - m->req_size;
 
         /* remember time of send relative to ts_start */
         struct timespec ts_send;
@@ -142,6 +146,9 @@ void *thread_sender(void *data) {
         /*---- Issue a request to the server ---*/
         m->req_id = pkt_id;
         m->req_size = pd_sample(&send_pkt_size_pd);
+        // always send the whole list of commands
+        if (m->req_size < min_size)
+            m->req_size = min_size;
 
         dw_log("sending %u bytes...\n", m->req_size);
         assert(m->req_size <= BUF_SIZE);
-- 
2.43.0


From e43a8618fd342aa1a00ba4d012aed793e0baf7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:26 +0000
Subject: [PATCH 41/70] fix: keep the sending rate of each thread apart

All the threads stepped through the same rate ramp and shared the resulting
period, so that the ramp ran faster with more threads.  With per-session output
the ramp also restarted from the beginning at each session.
---
 src/dw_client.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 8460cda..7c89fc2 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -78,6 +78,10 @@ clockid_t clk_id = CLOCK_REALTIME;
 int clientSocket[MAX_THREADS];
 long *usecs_send[MAX_THREADS];
 long *usecs_elapsed[MAX_THREADS];
+// inter-send period and progress of the rate ramp of each thread
+pd_spec_t thr_period_us_pd[MAX_THREADS];
+pd_spec_t thr_rate_pd[MAX_THREADS];
+int thr_step[MAX_THREADS];
 // abs start-time of the experiment
 struct timespec ts_start;
 
@@ -164,23 +168,23 @@ void *thread_sender(void *data) {
             break;
         }
 
-        if (ramp_step_secs != 0 && pkt_id > 0) {
-            int step_prev =
-                usecs_send[thread_id][idx(pkt_id - 1)] / 1000000 / ramp_step_secs;
+        if (ramp_step_secs != 0) {
             int step =
                 usecs_send[thread_id][idx(pkt_id)] / 1000000 / ramp_step_secs;
             int rate;
-            while (step_prev++ < step) {
-                int old_rate = 1000000.0 / send_period_us_pd.val;
-                rate = pd_sample(&send_rate_pd);
-                send_period_us_pd.val = 1000000.0 / rate;
+            if (pkt_id == 0)
+                thr_step[thread_id] = step;
+            for (; thr_step[thread_id] < step; thr_step[thread_id]++) {
+                int old_rate = 1000000.0 / thr_period_us_pd[thread_id].val;
+                rate = pd_sample(&thr_rate_pd[thread_id]);
+                thr_period_us_pd[thread_id].val = 1000000.0 / rate;
                 if (rate != old_rate) {
                     dw_log("pkt_id: %d, old_rate: %d, rate: %d\n", pkt_id, old_rate, rate);
                 }
             }
         }
 
-        unsigned long period_ns = pd_sample(&send_period_us_pd) * 1000.0;
+        unsigned long period_ns = pd_sample(&thr_period_us_pd[thread_id]) * 1000.0;
         dw_log("period_ns=%lu\n", period_ns);
         struct timespec ts_delta =
             (struct timespec) { period_ns / 1000000000, period_ns % 1000000000 };
@@ -857,6 +861,8 @@ int main(int argc, char *argv[]) {
         if (i < input_args.num_threads) {
             check(usecs_send[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
             check(usecs_elapsed[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
+            thr_period_us_pd[i] = send_period_us_pd;
+            thr_rate_pd[i] = send_rate_pd;
         } else {
             usecs_send[i] = NULL;
             usecs_elapsed[i] = NULL;
-- 
2.43.0


From d8f5060444e403ed0be1ef64aaf01f594c811df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:03 +0000
Subject: [PATCH 42/70] fix: do not read past the samples of a file from
 several threads

The index of the next sample was temporarily out of range, and another sender
thread could use it at that time.
---
 src/distrib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distrib.c b/src/distrib.c
index 2a3311f..1769f33 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -319,8 +319,9 @@ double pd_sample(pd_spec_t *p) {
             p->val = p->min;
         break;
     case SFILE:
-        val = p->samples[p->cur_sample++];
-        p->cur_sample %= p->num_samples;
+        // cur_sample is valid at any time, also for the other threads using p
+        val = p->samples[p->cur_sample];
+        p->cur_sample = (p->cur_sample + 1) % p->num_samples;
         break;
     default:
         fprintf(stderr, "Unexpected prob type: %d\n", p->prob);
-- 
2.43.0


From e142d19a08e81427c9244f459e7a027f848ade7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:57 +0000
Subject: [PATCH 43/70] fix: keep the reply of a forward until it is added to
 the request

The size of a reply not yet added was kept as a pointer to a local variable.
Any other option given in between changed it.
---
 src/dw_client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 7c89fc2..45424d2 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -635,8 +635,10 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         }
         
         // Reserve a forward reply command
-        data_t data = { .ptr=&val }; 
-        queue_enqueue(deferred_replies, i, data);
+        data_t data = { .ptr=malloc(sizeof(pd_spec_t)) };
+        check(data.ptr != NULL, "malloc() failed: %s\n", strerror(errno));
+        *(pd_spec_t *) data.ptr = val;
+        check(queue_enqueue(deferred_replies, i, data) != NULL, "Too many nested forwards");
 
         break; }
     case SEND_REQUEST_SIZE:
-- 
2.43.0


From 560928af5c4dc2fde0aaa9b2742331867535870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:57 +0000
Subject: [PATCH 44/70] fix: let each reply option close one forward only

After the first --reply, the other open forwards were no longer seen.
Their --reply options changed the size of an inner reply instead.
---
 src/dw_client.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 45424d2..2868940 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -622,7 +622,6 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 ccmd_last(ccmd)->fwd.on_fail_skip = 1;
                 ccmd_last(ccmd)->fwd.proto = fwd_proto;
 
-                nested_fwd_parsing++;
                 i++;
             }
         }
@@ -635,6 +634,8 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         }
         
         // Reserve a forward reply command
+        check(i > 0, "--forward needs at least one target");
+        nested_fwd_parsing++;
         data_t data = { .ptr=malloc(sizeof(pd_spec_t)) };
         check(data.ptr != NULL, "malloc() failed: %s\n", strerror(errno));
         *(pd_spec_t *) data.ptr = val;
@@ -683,7 +684,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
             ccmd_last(ccmd)->resp.n_ack = queue_node_key(queue_tail(deferred_replies));
 
             queue_dequeue_tail(deferred_replies);
-            nested_fwd_parsing = 0;
+            nested_fwd_parsing--;
         }
         break; }
     case NUM_THREADS:
-- 
2.43.0


From 1306d9d1ffb8daec90055b8ef10ee1f36cf8ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:57 +0000
Subject: [PATCH 45/70] fix: accept distributions and nack= alone in --reply

The commas of a distribution were taken as the end of the size.
With nack= alone the size was not initialized.
---
 src/dw_client.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 2868940..74ad40a 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -472,6 +472,13 @@ static struct argp_option argp_client_options[] = {
     { 0 }
 };
 
+// Append an item to a comma-separated list, that must have enough room
+static void join_token(char *list, const char *tok) {
+    if (list[0] != '\0')
+        strcat(list, ",");
+    strcat(list, tok);
+}
+
 static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *state) {
         /* Get the input argument from argp_parse, which we
         know is a pointer to our arguments structure. */
@@ -649,29 +656,35 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         check(send_pkt_size_pd.val + TCPIP_HEADERS_SIZE <= BUF_SIZE, "Too big send request size, maximum is %d", BUF_SIZE);
         break;
     case REPLY_CMD: {
-        pd_spec_t val;
-        int nack = 1;
+        pd_spec_t val = *(pd_spec_t *) queue_node_data(queue_tail(deferred_replies)).ptr;
+        int nack = queue_node_key(queue_tail(deferred_replies));
+        // size specification, without nack=
+        char *spec = calloc(1, strlen(arg) + 1);
+        check(spec != NULL, "calloc() failed: %s\n", strerror(errno));
 
         char *tok;
         while ((tok = strsep(&arg, ",")) != NULL) {
             if (sscanf(tok, "nack=%d", &nack) == 1) {
                 continue;
             } else {
-                check(pd_parse_bytes(&val, tok), "Wrong response size specification");
+                join_token(spec, tok);
+            }
+        }
+        if (spec[0] != '\0') {
+            check(pd_parse_bytes(&val, spec), "Wrong response size specification");
+            if (isnan(val.min))
                 val.min = MIN_REPLY_SIZE;
+            if (isnan(val.max))
                 val.max = BUF_SIZE;
-                check(val.prob != FIXED || (val.val >= val.min && val.val <= val.max), "Wrong min-max range for response size");
-            }
+            check(val.min >= MIN_REPLY_SIZE && val.max <= BUF_SIZE && val.min <= val.max
+                  && (val.prob != FIXED || (val.val >= val.min && val.val <= val.max)), "Wrong min-max range for response size");
         }
+        free(spec);
 
         // Update deferred reply
         int deferred_nack = queue_node_key(queue_tail(deferred_replies));
         pd_spec_t* deferred_val = queue_node_data(queue_tail(deferred_replies)).ptr;
-        deferred_val->val = val.val;
-        deferred_val->min = val.min;
-        deferred_val->max = val.max;
-        deferred_val->std = val.std;
-        deferred_val->prob = val.prob;
+        *deferred_val = val;
 
         if (nack == 0) // TODO: allow n_ack 0 when reply messages will be optional 
             nack = 1;
-- 
2.43.0


From 73e9f802ead71a3cc300658db50e8d40895ddfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:57 +0000
Subject: [PATCH 46/70] fix: accept distributions in --store-data

The commas of a distribution were taken as the end of the size.
The sync and nosync words were accepted after the size only.
---
 src/dw_client.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 74ad40a..5cf4a50 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -543,6 +543,9 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         break; }
     case STORE_DATA: {        
         uint8_t sync = 1;
+        // size specification, without [no]sync
+        char *spec = calloc(1, strlen(arg) + 1);
+        check(spec != NULL, "calloc() failed: %s\n", strerror(errno));
         char* reserve;
         char *tok = strtok_r(arg, ",", &reserve);
         while (tok != NULL) {
@@ -551,15 +554,17 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
             } else if (strncmp(tok, "sync", 4) == 0) {
                 sync = 1;
             } else {
-                pd_spec_t val;
-                check(pd_parse_bytes(&val, arg), "Wrong store data size specification");
-                ccmd_add(ccmd, STORE, &val);
-                ccmd_last(ccmd)->pd_val2 = store_offset_pd;
+                join_token(spec, tok);
             }
 
             tok = strtok_r(NULL, ",", &reserve);
         }
 
+        pd_spec_t val;
+        check(pd_parse_bytes(&val, spec), "Wrong store data size specification");
+        free(spec);
+        ccmd_add(ccmd, STORE, &val);
+        ccmd_last(ccmd)->pd_val2 = store_offset_pd;
         ccmd_last(ccmd)->store.wait_sync = sync;
 
         break; }
-- 
2.43.0


From 0dce2660d8d0894a2077b30fba89bfcc6b2786f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:57 +0000
Subject: [PATCH 47/70] fix: read options from scripts as from the command line

Values with a dash were split in two.
An option whose name is the start of another one was taken for it.
A flag at the end of the script was ignored.
---
 src/dw_client.c | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 5cf4a50..2909ea8 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -804,7 +804,7 @@ int script_parse(char *fname, struct argp_state *state) {
         if (s == NULL)
             break;
         char *tok;
-        while ((tok = strsep(&s, " -\n")) != NULL) {
+        while ((tok = strsep(&s, " \t\r\n")) != NULL) {
             if (strlen(tok) > 0) {
                 // comment, ignore till end of line
                 if (tok[0] == '#')
@@ -819,22 +819,41 @@ int script_parse(char *fname, struct argp_state *state) {
         }
     }
     
-    for (int i=0; i<argc-1; i++) {
-        // Find the option for the current input argument 
+    fclose(f);
+
+    for (int i=0; i<argc; i++) {
+        // Find the option for the current input argument, with or without leading dashes
+        char *name = argv[i] + strspn(argv[i], "-");
+        size_t len = strcspn(name, "=");
+        char *arg = NULL;
         int j = 0;
         while (argp_client_options[j].name != 0) {
-            if (strncmp(argv[i], argp_client_options[j].name, strlen(argp_client_options[j].name)) == 0 || // (long) name compare 
-                 (argv[i][1] == '\0' && argv[i][0] == argp_client_options[j].key)) { // short name/key compare
-                argp_client_parse_opt(argp_client_options[j].key, argv[i+1], state);
-
-                if (argp_client_options[j].arg)
-                    i++;
+            if ((strlen(argp_client_options[j].name) == len && strncmp(name, argp_client_options[j].name, len) == 0) || // (long) name compare
+                 (len == 1 && name[0] == argp_client_options[j].key)) { // short name/key compare
+                if (name[len] == '=')
+                    arg = name + len + 1;
                 break;
             }
             j++;
         }
+        // Short option followed by its argument, e.g. -n10
+        if (argp_client_options[j].name == 0 && name == argv[i] + 1) {
+            arg = name + 1;
+            for (j = 0; argp_client_options[j].name != 0; j++)
+                if (argp_client_options[j].arg && name[0] == argp_client_options[j].key)
+                    break;
+        }
+        if (argp_client_options[j].name != 0) {
+            if (argp_client_options[j].arg && arg == NULL) {
+                check(i + 1 < argc, "Missing argument for option %s in script %s\n", argv[i], fname);
+                arg = argv[++i];
+            }
+            argp_client_parse_opt(argp_client_options[j].key, arg, state);
+        }
     }
 
+    for (int i=0; i<argc; i++)
+        free(argv[i]);
     free(argv);
     return 0;
 }
-- 
2.43.0


From 7ccce0ae08cff05f62632b51161cd10c428ddc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:58 +0000
Subject: [PATCH 48/70] fix: read script lines of any length

A line longer than 1023 characters was cut in the middle of an option.
---
 src/dw_client.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 2909ea8..c51c163 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -798,11 +798,10 @@ int script_parse(char *fname, struct argp_state *state) {
     int argc = 0;
     char **argv = NULL;
 
-    while (!feof(f)) {
-        static char line[1024];
-        char *s = fgets(line, sizeof(line), f);
-        if (s == NULL)
-            break;
+    char *line = NULL;
+    size_t line_size = 0;
+    while (getline(&line, &line_size, f) != -1) {
+        char *s = line;
         char *tok;
         while ((tok = strsep(&s, " \t\r\n")) != NULL) {
             if (strlen(tok) > 0) {
@@ -819,6 +818,7 @@ int script_parse(char *fname, struct argp_state *state) {
         }
     }
     
+    free(line);
     fclose(f);
 
     for (int i=0; i<argc; i++) {
-- 
2.43.0


From 17362d658ef39fac9114211984940286d5665e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:05 +0000
Subject: [PATCH 49/70] fix: never skip the reply of the current level

A skip longer than the commands left removed the reply too.
The client then waited forever for an answer that nobody was asked to send.
---
 src/ccmd.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 82712f3..80f53fe 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -103,6 +103,7 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
     ccmd_node_t* ccmd_itr = q->head;
 
     double x = 0;
+    int n_skip;
     command_t *m_cmd_itr = message_first_cmd(m);
 
     while (ccmd_itr) {
@@ -133,10 +134,11 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
             case PSKIP:
                 drand48_r(&rnd_buf, &x);
                 dw_log("skip: x=%g, prob=%g\n", x, ccmd_itr->pd_val.val);
-                if (x <= ccmd_itr->pd_val.val)
-                    ccmd_itr = ccmd_skip(ccmd_itr->next, ccmd_itr->n_skip);
-                else
-                    ccmd_itr = ccmd_itr -> next;
+                n_skip = x <= ccmd_itr->pd_val.val ? ccmd_itr->n_skip : 0;
+                ccmd_itr = ccmd_itr->next;
+                // never skip the reply ending the current level
+                while (n_skip-- > 0 && ccmd_itr != NULL && ccmd_itr->cmd != REPLY)
+                    ccmd_itr = ccmd_skip(ccmd_itr, 1);
                 continue;
             case MULTI_FORWARD:
             case FORWARD:
-- 
2.43.0


From 488a93129c4c1bd872651a4be3ea3bf88d8a0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:39 +0000
Subject: [PATCH 50/70] fix: wrap around when dequeueing from the tail

Dequeueing from the tail after the queue wrapped around gave a negative index.
---
 src/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.c b/src/queue.c
index a29bb5f..7bfa903 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -44,7 +44,7 @@ void queue_dequeue_tail(queue_t *queue) {
 		return;
 
 	queue->size--;
-	queue->tail = (queue->tail - 1) % queue->capacity;
+	queue->tail = (queue->tail - 1 + queue->capacity) % queue->capacity;
 }
 
 void queue_drop(queue_t* queue) {
-- 
2.43.0


From 321e0b79525819fd3c204f72a4b29fddf15a7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:43 +0000
Subject: [PATCH 51/70] fix: check the space left before writing a command

A command was written in the message before checking that it fits.
When the space was used up exactly, this wrote past its end.
---
 src/ccmd.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 80f53fe..c2e8724 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -107,10 +107,9 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
     command_t *m_cmd_itr = message_first_cmd(m);
 
     while (ccmd_itr) {
-        m_cmd_itr->cmd = ccmd_itr->cmd;
-
         if(m->req_size < cmd_type_size(ccmd_itr->cmd))
             return -1;
+        m_cmd_itr->cmd = ccmd_itr->cmd;
         m->req_size -= cmd_type_size(ccmd_itr->cmd);
 
         switch (ccmd_itr->cmd) {
-- 
2.43.0


From 370938454b89e03131585dbc63b0a4916253cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:18 +0000
Subject: [PATCH 52/70] fix: read sample files with lines of any length

A line longer than 255 characters was taken as two or more lines.
This added samples that are not in the column asked for.
---
 src/distrib.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/distrib.c b/src/distrib.c
index 1769f33..d4621c4 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -54,12 +54,13 @@ void pd_load_file(pd_spec_t *p, char *fname, int col, char *sep) {
     FILE *f = fopen(fname, "r");
     check(f != NULL, "Could not open file: %s\n", fname);
     int n = 0;
-    static char line[256];
+    char *line = NULL;
+    size_t line_size = 0;
     int n_max = 16;
     p->samples = malloc(n_max * sizeof(*p->samples));
     check(p->samples != NULL, "Could not allocate %lu bytes for file\n", n_max * sizeof(*p->samples));
     n = 0;
-    while (fgets(line, sizeof(line), f)) {
+    while (getline(&line, &line_size, f) != -1) {
         char *colstr;
         char *s = line;
         int c = col;
@@ -78,6 +79,7 @@ void pd_load_file(pd_spec_t *p, char *fname, int col, char *sep) {
             p->samples[n++] = val;
         }
     }
+    free(line);
     fclose(f);
 
     // make allocated memory tight for the number of actually read samples n
-- 
2.43.0


From 85845b119d8c60a3b71ae5e0b81286369ecfbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:18 +0000
Subject: [PATCH 53/70] fix: accept sample files whose name starts like a
 number

Names such as 10runs.csv or info.csv were taken as a value.
The file was then reported as missing.
---
 src/distrib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distrib.c b/src/distrib.c
index d4621c4..5589f69 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -191,7 +191,7 @@ int pd_parse_internal(pd_spec_t *p, char *s, int is_time) {
             || (p->prob == SFILE && sscanf(tok, "col=%d", &col) == 1)
             || (p->prob == LOGNORM && sscanf(tok, "xavg=%lf", &xavg) == 1)
             || (p->prob == LOGNORM && sscanf(tok, "xstd=%lf", &xstd) == 1)
-            || sscanf_unit(tok, "%lf", &p->val, is_time) == 1
+            || (p->prob != SFILE && sscanf_unit(tok, "%lf", &p->val, is_time) == 1)
             )
                 continue;
         if (p->prob == SFILE) {
-- 
2.43.0


From 33ba2ea26e4f1d5beb813c7dea33b9434ff061b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:46 +0000
Subject: [PATCH 54/70] fix: apply byte units to all the parameters of a
 distribution

Only the last character of the whole specification was checked for the bytes suffix.
A kb in any other parameter was read as bytes.
The last b of the name of a sample file was cut.
---
 src/distrib.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/distrib.c b/src/distrib.c
index 5589f69..66d4cdd 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -126,6 +126,9 @@ int sscanf_unit(const char *str, const char *fmt, double *p_val, int is_time) {
     int rv = sscanf(str, fmt, p_val);
     if (rv != 1)
         return rv;
+    // the bytes suffix may follow any other unit
+    if (l > 1 && (str[l - 1] == 'b' || str[l - 1] == 'B'))
+        l--;
     switch (str[l - 1]) {
     case 'k':
     case 'K':
@@ -200,6 +203,9 @@ int pd_parse_internal(pd_spec_t *p, char *s, int is_time) {
                 check(strlen(sep) > 0);
                 continue;
             } else if (strncmp(tok, "unit=", 5) == 0) {
+                int l = strlen(tok);
+                if (!is_time && (tok[l - 1] == 'b' || tok[l - 1] == 'B'))
+                    tok[l - 1] = 0;
                 if (strcmp(tok + 5, "k") == 0 || strcmp(tok + 5, "K") == 0)
                     file_unit_us = 1e3;
                 else if (strcmp(tok + 5, "m") == 0 || strcmp(tok + 5, "M") == 0)
@@ -269,9 +275,6 @@ int pd_parse_time(pd_spec_t *p, char *s) {
 }
 
 int pd_parse_bytes(pd_spec_t *p, char *s) {
-    int l = strlen(s);
-    if (l > 0 && (s[l-1] == 'b' || s[l-1] == 'B'))
-        s[l-1] = 0;
     return pd_parse(p, s);
 }
 
-- 
2.43.0


From 0ead994c90d214fb5876d24656f25fca3b88c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:28 +0000
Subject: [PATCH 55/70] fix: make room for the description of any distribution

Describing the commands of a request overran two buffers of 64 bytes.
This happened with two distributions in a command, or with long numbers.
The size and the offset of a command were also shown as equal.
---
 src/ccmd.c    | 2 +-
 src/distrib.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index c2e8724..1e82344 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -182,7 +182,7 @@ void ccmd_log(ccmd_t* q) {
     ccmd_node_t* curr = q->head;
 
     while (curr) {
-        char opts[64] = "";
+        char opts[512] = "";
 
         switch (curr->cmd) {
             case STORE:
diff --git a/src/distrib.c b/src/distrib.c
index 66d4cdd..3ddae3e 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -341,7 +341,9 @@ double pd_sample(pd_spec_t *p) {
 
 // stringify spec into static array and return it
 char *pd_str(pd_spec_t *p) {
-    static char s[64];
+    static char bufs[2][128]; // for two specs in the same line
+    static int cur_buf = 0;
+    char *s = bufs[cur_buf ^= 1];
     double scale;
     int k;
     switch (p->prob) {
-- 
2.43.0


From e38562c1679c8473104a7faad241582d1059455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:51 +0000
Subject: [PATCH 56/70] fix: accept host names starting with tcp or udp

The first three letters of names such as udp-server were taken as the protocol.
---
 src/address_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/address_utils.c b/src/address_utils.c
index 59705d1..56a0c55 100644
--- a/src/address_utils.c
+++ b/src/address_utils.c
@@ -72,11 +72,12 @@ void addr_proto_parse(char* arg, char *nodehostport, proto_t *proto) {
     if (!tok) {
         int parse_proto_check = 0;
 
-        if (strncmp(arg, "udp", 3) == 0) {
+        // a longer word is the name of a host
+        if (strncmp(arg, "udp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = UDP;
             parse_proto_check = 1;
         }
-        if (strncmp(arg, "tcp", 3) == 0) {
+        if (strncmp(arg, "tcp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = TCP;
             parse_proto_check = 1;
         }
-- 
2.43.0


From 215815e623f9dfd6145ac1930dcbca656a1c49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:51 +0000
Subject: [PATCH 57/70] fix: refuse ports out of range

Another port was used, obtained from the lowest 16 bits.
---
 src/address_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/address_utils.c b/src/address_utils.c
index 56a0c55..d18ab3c 100644
--- a/src/address_utils.c
+++ b/src/address_utils.c
@@ -30,8 +30,10 @@ void addr_parse(char* hostport_str, struct sockaddr_in* addr) {
 
         // Convert port string to integer
         char* end_ptr = NULL;
-        port = strtol(port_str, &end_ptr, 10);
+        long port_num = strtol(port_str, &end_ptr, 10);
         check(!*end_ptr, "Port '%s' is not a numeric value!\n", port_str);
+        check(port_num >= 0 && port_num <= 65535, "Port '%s' is out of range!\n", port_str);
+        port = port_num;
     }
 
     // Now hostport_str containts hostname (or ip) only
-- 
2.43.0


From c7e669bf9b5e758e86e15d3ba8cb186ea5e979a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:14 +0000
Subject: [PATCH 58/70] fix: use the default address for a forward giving the
 protocol only

The address was read from uninitialised memory.
---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index c51c163..ea5c022 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -609,7 +609,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 || sscanf(tok, "timeout=%d", &timeout_us) == 1)
                     continue;
             else {
-                char fwdhostport[MAX_HOSTPORT_STRLEN];
+                char fwdhostport[MAX_HOSTPORT_STRLEN] = DEFAULT_ADDR ":" DEFAULT_PORT;
                 proto_t fwd_proto = TCP;
 
                 addr_proto_parse(tok, fwdhostport, &fwd_proto);
-- 
2.43.0


From f4f51ac96b75cbf6af1010e244cc5c7721da2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:46 +0000
Subject: [PATCH 59/70] fix: do not apply the step of a CPU range to the
 following ones

---
 src/thread_affinity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_affinity.c b/src/thread_affinity.c
index 1e85e2a..8d7819b 100644
--- a/src/thread_affinity.c
+++ b/src/thread_affinity.c
@@ -18,9 +18,9 @@ void aff_list_parse(char *str, cpu_set_t* mask, int ncpu) {
     int val;
     int max;
 
-    int step = 1;
     CPU_ZERO(mask);
     while ((tok = strsep(&str, ",")) != NULL) {
+        int step = 1; // each range has its own
         if (sscanf(tok, "%d-%d:%d", &min, &max, &step) >= 2) {
             if (min > max) {
                 int tmp = max;
-- 
2.43.0


From 5eeeed01832a204c13a1298258cc3ad23ba107a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:14 +0000
Subject: [PATCH 60/70] fix: never forward a message shorter than its commands

The size of a forwarded message is fixed by the client.
When the nested commands took more room than that, the message was cut.
The target then waited for commands that never came, or executed garbage.
Enlarge such messages, and count the header when checking the room left.
---
 src/dw_node.c | 4 +++-
 src/message.c | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index ee9dc21..7dc3ba4 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -344,8 +344,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
         fprintf(stderr, "Not enough room to forward a message, conn_id: %d\n", fwd_conn_id);
         return 0;
     }
+    // always forward the whole list of commands
+    uint32_t min_size = sizeof(message_t) + ((unsigned char*)cmd_next(reply_cmd) - (unsigned char*)c) + cmd_type_size(EOM);
     m_dst->req_id = req->req_id;
-    m_dst->req_size = fwd.pkt_size;
+    m_dst->req_size = fwd.pkt_size < min_size ? min_size : fwd.pkt_size;
 
     dw_log("Forwarding req %u to %s:%d\n", m_dst->req_id,
            inet_ntoa((struct in_addr) { fwd.fwd_host }),
diff --git a/src/message.c b/src/message.c
index 3aa3cab..0a040f9 100644
--- a/src/message.c
+++ b/src/message.c
@@ -73,7 +73,7 @@ command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
     itr = cmd_next(itr);
     int cmds_len = ((unsigned char*)itr - (unsigned char*)cmd);
     int skipped_len = ((unsigned char*)cmd - (unsigned char*)message_first_cmd(m));
-    if (m_dst->req_size < cmds_len + cmd_type_size(EOM))
+    if (m_dst->req_size < sizeof(message_t) + cmds_len + cmd_type_size(EOM))
       return NULL;
 
     memcpy(m_dst->cmds, cmd, cmds_len);
-- 
2.43.0


From 1a671d0c530dbad683343a17f70339302d15990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:54 +0000
Subject: [PATCH 61/70] fix: recognise the smallest replies of forwards

A reply can be as small as its header, without room for the end mark.
Such a reply to a forward was taken as a request made of stale bytes.
---
 src/dw_node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 7dc3ba4..e72ffdd 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -678,8 +678,8 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
         return 1;
 
     for (message_t *m = conn_next_message(conn); m != NULL; m = conn_next_message(conn)) {
-        // FORWARD finished
-        if (message_first_cmd(m)->cmd == EOM) {
+        // FORWARD finished (the smallest replies have no room for any command)
+        if (m->req_size < sizeof(message_t) + cmd_type_size(EOM) || message_first_cmd(m)->cmd == EOM) {
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
                                                                            ntohs(conns[conn_id].target.sin_port), m->req_id);
             int req_id = m->req_id;
-- 
2.43.0


From 69d716b69adfd378283d10c877bf562952b37781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:41 +0000
Subject: [PATCH 62/70] fix: take a number after the name of a sample file as
 its mean

A bare number given after the name of a sample file was taken as another
file name. Only the first unnamed field of file: is the name.
---
 src/distrib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distrib.c b/src/distrib.c
index 3ddae3e..ea80269 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -194,7 +194,7 @@ int pd_parse_internal(pd_spec_t *p, char *s, int is_time) {
             || (p->prob == SFILE && sscanf(tok, "col=%d", &col) == 1)
             || (p->prob == LOGNORM && sscanf(tok, "xavg=%lf", &xavg) == 1)
             || (p->prob == LOGNORM && sscanf(tok, "xstd=%lf", &xstd) == 1)
-            || (p->prob != SFILE && sscanf_unit(tok, "%lf", &p->val, is_time) == 1)
+            || ((p->prob != SFILE || fname != NULL) && sscanf_unit(tok, "%lf", &p->val, is_time) == 1)
             )
                 continue;
         if (p->prob == SFILE) {
-- 
2.43.0


From b3def4ecfd31c5443a7ec90c68d0af2467e37354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:14 +0000
Subject: [PATCH 63/70] fix: honour --no-delay on accepted connections

The node always enabled TCP_NODELAY on the connections it accepted,
whatever value was given to --no-delay.
---
 src/dw_node.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index e72ffdd..715a9cb 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1090,9 +1090,8 @@ void* conn_worker(void* args) {
                 dw_log("Accepted connection from: %s:%d\n",
                        inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
                 setnonblocking(conn_sock);
-                int val = 1;
                 sys_check(setsockopt(conn_sock, IPPROTO_TCP, TCP_NODELAY,
-                                     (void *)&val, sizeof(val)));
+                                     (void *)&no_delay, sizeof(no_delay)));
 
                 int conn_id = conn_alloc(conn_sock, addr, TCP);
                 if (conn_id < 0) {
-- 
2.43.0


From d4ed9c8f061d54a485bf9d77a9a5072f7992d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:09 +0000
Subject: [PATCH 64/70] fix: Keep deadlines right when timeouts have been
 pending for long

The keys of pending timeouts are relative to the first one ever armed.
While there is always some timeout pending they grow without bound.
As 32-bit numbers they overflowed after about 36 minutes, and deadlines
fired in the wrong order or not at all. They are 64-bit numbers now.
---
 src/dw_node.c         | 4 ++--
 src/priority_queue.c  | 2 +-
 src/priority_queue.h  | 4 ++--
 src/queueing_common.h | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 715a9cb..553b141 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -193,7 +193,7 @@ int safe_read(int fd, unsigned char *buf, size_t len) {
 void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micros) {
     data_t data = {.value = req_id};
     req_info_t *req = req_get_by_id(req_id);
-    int new_micros = micros;
+    int64_t new_micros = micros;
 
     if (req == NULL)
         return;
@@ -222,7 +222,7 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 
     node_t *top = pqueue_top(infos->timeout_queue);
     struct itimerspec timerspec = {0};
-    int time_elapsed, req_timeout;
+    int64_t time_elapsed, req_timeout;
     bool is_top = (top == req->timeout_node);
 
     req_timeout = pqueue_node_key(req->timeout_node);
diff --git a/src/priority_queue.c b/src/priority_queue.c
index 16150f9..d02992f 100644
--- a/src/priority_queue.c
+++ b/src/priority_queue.c
@@ -82,7 +82,7 @@ static void down(pqueue_t *queue, node_t *node) {
 	}
 }
 
-node_t* pqueue_insert(pqueue_t *queue, int key, data_t data) {
+node_t* pqueue_insert(pqueue_t *queue, int64_t key, data_t data) {
 	int node_id = queue->stack[queue->capacity - queue->size - 1];
 	node_t *node = &(queue->nodes[node_id]);
 
diff --git a/src/priority_queue.h b/src/priority_queue.h
index aeea215..e37b367 100644
--- a/src/priority_queue.h
+++ b/src/priority_queue.h
@@ -17,7 +17,7 @@ typedef struct pqueue_t {
 pqueue_t* pqueue_alloc(uint32_t capacity);
 void pqueue_free(pqueue_t *queue);
 
-node_t* pqueue_insert(pqueue_t *queue, int key, data_t data);
+node_t* pqueue_insert(pqueue_t *queue, int64_t key, data_t data);
 void pqueue_remove(pqueue_t *queue, node_t *node);
 void pqueue_pop(pqueue_t *queue);
 
@@ -26,6 +26,6 @@ static inline int pqueue_capacity(pqueue_t *queue) { return queue->capacity; }
 static inline node_t* pqueue_top(pqueue_t *queue) { return (!queue->size) ? NULL : &queue->nodes[queue->heap[0]]; }
 
 static inline data_t pqueue_node_data(node_t *node) { return node->data; }
-static inline int pqueue_node_key(node_t *node) { return node->key; }
+static inline int64_t pqueue_node_key(node_t *node) { return node->key; }
 
 #endif /* __PRIORITY_QUEUE_H__ */
diff --git a/src/queueing_common.h b/src/queueing_common.h
index 6d05edc..4a76500 100644
--- a/src/queueing_common.h
+++ b/src/queueing_common.h
@@ -13,7 +13,7 @@ typedef union {
 
 typedef struct node_t {
 	uint32_t heap_id; // for pqueue
-	int key;
+	int64_t key;
 	data_t data;
 } node_t;
 
-- 
2.43.0


From 213bae7c82eb41f47001638a41ede47ce705436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:09 +0000
Subject: [PATCH 65/70] fix: Do not acknowledge a synchronous store whose sync
 failed

The result of fsync() was ignored, so a request was answered with success
although its data had not reached the disk. The node now ends with an error,
as it does for failing reads and writes.
---
 src/dw_node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 553b141..23f5ca9 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -546,7 +546,7 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     storage_info->storage_offset += total_bytes;
 
     if (wait_sync && infos->periodic_sync_msec <= 0) { 
-        fsync(storage_info->storage_fd);
+        sys_check(fsync(storage_info->storage_fd));
     }
 
     if (storage_info->storage_offset > storage_info->storage_eof) {
@@ -855,7 +855,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
 
 // sync the storage and resume the requests waiting for it
 void sync_storage(storage_worker_info_t *infos) {
-    fsync(infos->storage_info.storage_fd);
+    sys_check(fsync(infos->storage_info.storage_fd));
 
     while (pqueue_size(infos->sync_waiting_queue) > 0) {
         int worker_id = pqueue_node_key(pqueue_top(infos->sync_waiting_queue));
-- 
2.43.0


From c33ac16998466b49c227e46e06e7834e67f2fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:09 +0000
Subject: [PATCH 66/70] fix: End with an error when a descriptor cannot be
 watched

Several failures of epoll_ctl() were only printed, or not noticed at all.
The node went on without ever hearing of new connections, of completed
storage operations or of termination signals.
---
 src/dw_node.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 23f5ca9..70df5c9 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -889,15 +889,13 @@ void* storage_worker(void* args) {
     for (int i = 0; i < conn_threads; i++) {
         ev.events = EPOLLIN;
         ev.data.u64 = i2l(STORAGE, infos->storefd[i]);
-        if (epoll_ctl(epollfd, EPOLL_CTL_ADD, infos->storefd[i], &ev) < 0)
-            perror("epoll_ctl: storefd failed");
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, infos->storefd[i], &ev));
     }
 
     // Add termination handler
     ev.events = EPOLLIN;
     ev.data.u64 = i2l(TERMINATION, terminationfd);
-    if (epoll_ctl(epollfd, EPOLL_CTL_ADD, terminationfd, &ev) < 0)
-        perror("epoll_ctl: terminationfd failed");
+    sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, terminationfd, &ev));
 
 
     // Add periodic sync timerfd
@@ -925,8 +923,7 @@ void* storage_worker(void* args) {
         
         ev.events = EPOLLIN;
         ev.data.u64 = i2l(TIMER, infos->timerfd);
-        if (epoll_ctl(epollfd, EPOLL_CTL_ADD, infos->timerfd, &ev) < 0)
-            perror("epoll_ctl: timerfd failed");
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, infos->timerfd, &ev));
     }
 
     while (running) {
@@ -1033,7 +1030,7 @@ void* conn_worker(void* args) {
             ev.data.u64 = i2l(LISTEN, infos->listen_sock);
         else // UDP
             ev.data.u64 = i2l(SOCKET, conn_id);
-        sys_check(epoll_ctl(infos->epollfd, EPOLL_CTL_ADD, infos->listen_sock, &ev) == -1);
+        sys_check(epoll_ctl(infos->epollfd, EPOLL_CTL_ADD, infos->listen_sock, &ev));
     }
 
     // Add termination fd
@@ -1057,8 +1054,7 @@ void* conn_worker(void* args) {
     if (infos->storefd != -1) {
         ev.events = EPOLLIN;
         ev.data.u64 = i2l(STORAGE, infos->store_replyfd);
-        if (epoll_ctl(infos->epollfd, EPOLL_CTL_ADD, infos->store_replyfd, &ev) < 0)
-            perror("epoll_ctl: storefd failed");
+        sys_check(epoll_ctl(infos->epollfd, EPOLL_CTL_ADD, infos->store_replyfd, &ev));
     }
 
     while (running) {
@@ -1106,8 +1102,7 @@ void* conn_worker(void* args) {
 
                 int next_thread_id = accept_mode == AM_PARENT ? (atomic_fetch_add(&next_thread_cnt, 1) % conn_threads) : (infos - conn_worker_infos);
                 conn_worker_infos[next_thread_id].active_conns++;
-                if (epoll_ctl(conn_worker_infos[next_thread_id].epollfd, EPOLL_CTL_ADD, conn_sock, &ev) < 0)
-                        perror("epoll_ctl() failed");
+                sys_check(epoll_ctl(conn_worker_infos[next_thread_id].epollfd, EPOLL_CTL_ADD, conn_sock, &ev));
                 dw_log("conn_id: %d assigned to connw-%d\n", conn_id, conn_worker_infos[next_thread_id].worker_id);
             } else if (type == STORAGE) {
                 check(fd == infos->store_replyfd);
-- 
2.43.0


From cca3331ac2891a84803dc6645883edc6d0fe3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:09 +0000
Subject: [PATCH 67/70] fix: Notice threads that could not be created

pthread_create() returns a positive error number, which the check for
negative values did not catch. The node went on without some of its workers,
and both programs then joined threads that did not exist.
---
 src/dw_client.c | 6 +++---
 src/dw_node.c   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index ea5c022..ab4af77 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -298,8 +298,8 @@ void *thread_receiver(void *data) {
             thr_data.conn_id = conn_id;
             thr_data.first_pkt_id = i,
             thr_data.num_send_pkts = pkts_per_session;
-            sys_check(pthread_create(&sender[thread_id], NULL, thread_sender,
-                                  (void *)&thr_data));
+            check(pthread_create(&sender[thread_id], NULL, thread_sender,
+                                  (void *)&thr_data) == 0);
         }
 
         /*---- Read the message from the server into the buffer ----*/
@@ -918,7 +918,7 @@ int main(int argc, char *argv[]) {
     } else {
         // Init worker threads
         for (int i = 0; i < input_args.num_threads; i++) {
-            sys_check(pthread_create(&receiver[i], NULL, thread_receiver, (void *)(unsigned long) i));
+            check(pthread_create(&receiver[i], NULL, thread_receiver, (void *)(unsigned long) i) == 0);
         }
 
         for (int i = 0; i < input_args.num_threads; i++)
diff --git a/src/dw_node.c b/src/dw_node.c
index 70df5c9..ed909e7 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1515,7 +1515,7 @@ int main(int argc, char *argv[]) {
         } else {
             storage_worker_info.core_id = -1;
         }
-        sys_check(pthread_create(&storer, NULL, storage_worker, (void *)&storage_worker_info));
+        check(pthread_create(&storer, NULL, storage_worker, (void *)&storage_worker_info) == 0);
     }
 
     // Run
@@ -1524,7 +1524,7 @@ int main(int argc, char *argv[]) {
     } else {
         // Init worker threads
         for (int i = 0; i < input_args.num_threads; i++) {
-            sys_check(pthread_create(&workers[i], NULL, conn_worker, (void *)&conn_worker_infos[i]));
+            check(pthread_create(&workers[i], NULL, conn_worker, (void *)&conn_worker_infos[i]) == 0);
         }
     }
     
-- 
2.43.0


From 8fdb18ccb59308a12ab185f69be46b46f9520090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:09 +0000
Subject: [PATCH 68/70] fix: Report a UDP socket that cannot be opened for a
 forward

The failure of socket() was not checked, so that the node aborted on an
assertion about the flags of an invalid descriptor.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index ed909e7..31d87b5 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -282,7 +282,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
                                  TCP_NODELAY, (void *)&no_delay,
                                  sizeof(no_delay)));
         } else {
-            clientSocket = socket(AF_INET, SOCK_DGRAM, 0);
+            sys_check(clientSocket = socket(AF_INET, SOCK_DGRAM, 0));
         }
 
         setnonblocking(clientSocket);
-- 
2.43.0


From c93f2b0dbe98901efc1572be689155a6ad942da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:45:54 +0000
Subject: [PATCH 69/70] fix: bind the client to any port or address if not
 specified

With -b host the client was bound to port 7891, the default port of the
node. With -b :port it was bound to the loopback address, so it could not
reach other hosts. The part that is not given is now left to the system.
---
 src/dw_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index ab4af77..5c03d91 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -504,8 +504,8 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         argp_state_help(state, state->out_stream, ARGP_HELP_USAGE | ARGP_HELP_EXIT_OK);
         break;
     case BIND_ADDR:
-        check(strlen(arg) < MAX_HOSTPORT_STRLEN, "Too long host:port argument to %c option", BIND_ADDR);
-        strcpy(arguments->clienthostport, arg);
+        // any address and any port, unless specified
+        check(snprintf(arguments->clienthostport, MAX_HOSTPORT_STRLEN, "%s%s%s", arg[0] == ':' ? "0.0.0.0" : "", arg, strchr(arg, ':') ? "" : ":0") < MAX_HOSTPORT_STRLEN, "Too long host:port argument to %c option", BIND_ADDR);
         break;
     case TO_OPT_ARG:
         check(strlen(arg) < MAX_HOSTPORT_STRLEN, "Too long host:port argument to --to option");
-- 
2.43.0


From d2060f33945b3ab0781d20254cad169df58edfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:45:54 +0000
Subject: [PATCH 70/70] fix: report failure of stores and loads at invalid
 offsets

A store or load whose offset is refused by the file system was answered as
a success without touching the file. The reply now has the failure status.
---
 src/dw_node.c | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 31d87b5..4532fcb 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -128,6 +128,11 @@ typedef struct {
     int req_id;
 } storage_req_t;
 
+typedef struct {
+    int req_id;
+    int status; // 0 on success
+} storage_ack_t;
+
 pthread_t workers[MAX_THREADS];
 conn_worker_info_t conn_worker_infos[MAX_THREADS];
 
@@ -505,7 +510,8 @@ void compute_for(unsigned long usecs) {
 // (Essential, since O_DIRECT bypasses the page caches)
 unsigned long blk_size = 0;
 
-void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store_opts) {
+// returns 0 on success, -1 if the offset is not valid
+int store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store_opts) {
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = store_opts->store_nbytes;
@@ -522,7 +528,7 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     if (offset != (uint64_t) -1) {
         if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
             perror("lseek() failed");
-            return; // @todo propagate error
+            return -1;
         }
         storage_info->storage_offset = offset;
     } else {
@@ -556,9 +562,11 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
             storage_info->storage_eof = storage_info->max_storage_size;
         }
     }
+    return 0;
 }
 
-void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_opts) {
+// returns 0 on success, -1 if the offset is not valid
+int load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_opts) {
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = load_opts->load_nbytes;
@@ -574,7 +582,7 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     if (offset != (uint64_t) -1) {
         if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
             perror("lseek() failed");
-            return; // @todo propagate error
+            return -1;
         }
         storage_info->storage_offset = offset;
     } else {
@@ -596,6 +604,7 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     }
     // reading restarts from the beginning at the end of the file
     storage_info->storage_offset = lseek(storage_info->storage_fd, 0, SEEK_CUR);
+    return 0;
 }
 
 // this invalidates the conn_info_t in conns[] referring sock, if any
@@ -859,10 +868,10 @@ void sync_storage(storage_worker_info_t *infos) {
 
     while (pqueue_size(infos->sync_waiting_queue) > 0) {
         int worker_id = pqueue_node_key(pqueue_top(infos->sync_waiting_queue));
-        int req_id = pqueue_node_data(pqueue_top(infos->sync_waiting_queue)).value;
+        storage_ack_t ack = { .req_id = pqueue_node_data(pqueue_top(infos->sync_waiting_queue)).value };
 
         pqueue_pop(infos->sync_waiting_queue);
-        safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
+        safe_write(infos->store_replyfd[worker_id], (unsigned char*) &ack, sizeof(ack));
     }
 }
 
@@ -978,17 +987,18 @@ void* storage_worker(void* args) {
 
                 dw_log("STORAGE cmd from conn_id %d\n", req_id);
 
+                storage_ack_t ack = { .req_id = req_id };
                 if (storage_cmd->cmd == STORE) {
-                    store(infos, infos->store_buf, cmd_get_opts(store_opts_t, storage_cmd));
+                    ack.status = store(infos, infos->store_buf, cmd_get_opts(store_opts_t, storage_cmd));
                 } else if (storage_cmd->cmd == LOAD) {
-                    load(infos, infos->store_buf, cmd_get_opts(load_opts_t, storage_cmd));
+                    ack.status = load(infos, infos->store_buf, cmd_get_opts(load_opts_t, storage_cmd));
                 } else { // error
                     fprintf(stderr, "Unknown command sent to storage server - skipping");
                     continue;
                 }
 
-                if (storage_cmd->cmd != STORE || !cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
-                    safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
+                if (ack.status != 0 || storage_cmd->cmd != STORE || !cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
+                    safe_write(infos->store_replyfd[worker_id], (unsigned char*) &ack, sizeof(ack));
                 } else {
                     data_t data = {.value=req_id};
                     pqueue_insert(infos->sync_waiting_queue, worker_id, data);
@@ -1107,18 +1117,20 @@ void* conn_worker(void* args) {
             } else if (type == STORAGE) {
                 check(fd == infos->store_replyfd);
 
-                int req_id_ACK;
-                if (safe_read(infos->store_replyfd, (unsigned char*) &req_id_ACK, sizeof(req_id_ACK)) < 0) {
+                storage_ack_t ack;
+                if (safe_read(infos->store_replyfd, (unsigned char*) &ack, sizeof(ack)) < 0) {
                     perror("storage worker read() failed");
                     continue;
                 }
 
-                dw_log("STORAGE ACK for req_id %d\n", req_id_ACK);
-                req_info_t *req = req_get_by_id(req_id_ACK);
+                dw_log("STORAGE ACK for req_id %d\n", ack.req_id);
+                req_info_t *req = req_get_by_id(ack.req_id);
                 if (req == NULL) {
-                    dw_log("Could not match a STORAGE ACK, req_id:%d - Dropped\n", req_id_ACK);
+                    dw_log("Could not match a STORAGE ACK, req_id:%d - Dropped\n", ack.req_id);
                     continue;
                 }
+                if (ack.status != 0)
+                    req_get_message(req)->status = -1;
                 process_messages(req, infos->epollfd, infos);
                 //exec_request(infos->epollfd, &events[i], infos);
             } else if (type == TERMINATION) {
-- 
2.43.0

