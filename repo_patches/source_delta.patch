From ab2fc7624540f0bd40a15c9952e5cc40ddb135f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:04 +0000
Subject: [PATCH 01/40] fix: match whole lines of the IP allow and deny lists

An address was allowed or denied by any longer address containing it, and a
list of 8 KB or more overflowed the buffer it was read into.
---
 file_utils.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 69393a7..921b364 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -20,6 +20,7 @@
 #include <string.h>
 #include <sys/stat.h>
 #include "log.h"
+#include "string_utils.h"
 #include "file_utils.h"
 
 bool find_in_file(char *path, char *needle)
@@ -32,13 +33,24 @@ bool find_in_file(char *path, char *needle)
 
   bool result = false;
 
-  char *haystack = calloc(8192, 1);
-  read_file(haystack, path, 0);
+  FILE *file = fopen(path, "r");
+  if (!file)
+  {
+    return false;
+  }
 
-  if (strstr(haystack, needle))
-    result = true;
+  /* Entries are whole lines, an address must not match part of another one */
+  char *line = NULL;
+  size_t len = 0;
+  while (!result && getline(&line, &len, file) != -1)
+  {
+    trim(line);
+    if (!strcmp(line, needle))
+      result = true;
+  }
 
-  free(haystack);
+  free(line);
+  fclose(file);
   return result;
 }
 
-- 
2.43.0


From 30a202b540e6aa4e0dff883d10e297c603dd1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:54 +0000
Subject: [PATCH 02/40] fix: admit no more connections than the configured
 limits

The connection being admitted is not in the table yet, so a limit of N let
N+1 connections in.
---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index a142e34..427dbc9 100644
--- a/ws.c
+++ b/ws.c
@@ -393,12 +393,12 @@ bool connection_validate(char *IP, char *path)
 			int total = 0;
 			int by_ip = 0;
 			get_live_stats(limits[i].path, IP, &total, &by_ip);
-			if (total > limits[i].max_connections)
+			if (total >= limits[i].max_connections)
 			{
 				log_debug("IP:%s denied, max_connections exceeded for %s", IP, limits[i].path);
 				return false;
 			}
-			if (by_ip > limits[i].max_connections_per_ip)
+			if (by_ip >= limits[i].max_connections_per_ip)
 			{
 				log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
 				return false;
-- 
2.43.0


From 4aa9f8b109fc0044d758fc3a6283d5187c430b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:54 +0000
Subject: [PATCH 03/40] fix: guard the live connection table with a mutex

Workers counted and claimed slots concurrently, so two of them could take the
same slot or pass the same limit check together.
---
 ws.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ws.c b/ws.c
index 427dbc9..33dbb2c 100644
--- a/ws.c
+++ b/ws.c
@@ -35,6 +35,7 @@
 /* Globals */
 pthread_mutex_t ws_mutex;
 pthread_cond_t ws_cond;
+pthread_mutex_t connections_mutex = PTHREAD_MUTEX_INITIALIZER;
 ws_queue *ws_threads_queue;
 SSL_CTX *ctx;
 connections *live_connections;
@@ -422,6 +423,7 @@ void connection_close(api_request *req)
 /* Removes socket from live_connections */
 void connection_del(int socket)
 {
+	pthread_mutex_lock(&connections_mutex);
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
 		if (live_connections[i].socket == socket)
@@ -432,13 +434,18 @@ void connection_del(int socket)
 			break;
 		}
 	}
+	pthread_mutex_unlock(&connections_mutex);
 }
 
 /* Adds socket to live_connections (if allowed) */
 bool connection_add(int socket, char *IP, char *path)
 {
+	pthread_mutex_lock(&connections_mutex);
 	if (!connection_validate(IP, path))
+	{
+		pthread_mutex_unlock(&connections_mutex);
 		return false;
+	}
 
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
@@ -447,9 +454,11 @@ bool connection_add(int socket, char *IP, char *path)
 			live_connections[i].socket = socket;
 			strcpy(live_connections[i].path, path);
 			strcpy(live_connections[i].IP, IP);
+			pthread_mutex_unlock(&connections_mutex);
 			return true;
 		}
 	}
+	pthread_mutex_unlock(&connections_mutex);
 
 	log_debug("WS_MAX_CONNECTIONS reached");
 	return false;
-- 
2.43.0


From 9a4416e5a77314b9edc3d8ad4e63d16684c4e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 04/40] fix: leave the live connection table before closing the
 socket

Once closed, the descriptor can be reused by a connection another worker has
just added, whose slot was then released instead.
---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 33dbb2c..2a9c88f 100644
--- a/ws.c
+++ b/ws.c
@@ -416,8 +416,8 @@ void connection_close(api_request *req)
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
-	close(req->socket);
 	connection_del(req->socket);
+	close(req->socket);
 }
 
 /* Removes socket from live_connections */
-- 
2.43.0


From 4004029d3d7f825edf5094e9febab65ba1b99221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:56 +0000
Subject: [PATCH 05/40] fix: make room for the longest method and path in the
 router

Method and path can be 254 characters each, the buffer held 255 for both.
---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 15d5bed..a23adc2 100644
--- a/router.c
+++ b/router.c
@@ -117,7 +117,7 @@ void router_handle_request(api_request *request)
   request_handler handler = NULL;
   request_filter filter = NULL;
 
-  char matcher[255];
+  char matcher[strlen(request->method) + strlen(request->path) + 2];
 
   // Match method:path
   sprintf(matcher, "%s:%s", request->method, request->path);
-- 
2.43.0


From 9783c15bff256f4a5001f4c121b6e632966be140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:56 +0000
Subject: [PATCH 06/40] fix: match parametric routes at the start of
 METHOD:PATH

A template found anywhere in the request was taken as a match, so POST
/api/GET:/user/1 reached the handler of GET:/user/{id}.
---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index a23adc2..583620d 100644
--- a/router.c
+++ b/router.c
@@ -132,7 +132,7 @@ void router_handle_request(api_request *request)
       filter = routing_table.filters[i];
       break;
     }
-    else if (type == MATCHER_TYPE_PARAM && strstr(matcher, template) != NULL && strcmp(template, matcher) != 0)
+    else if (type == MATCHER_TYPE_PARAM && strncmp(matcher, template, strlen(template)) == 0 && strcmp(template, matcher) != 0)
     {
       char *qs = router_extract_param(matcher, routing_table.matchers[i]);
       if (strlen(request->form) == 0)
-- 
2.43.0


From 7c436ba71000b3742cf8f5baf9dc99d49d9d6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 07/40] fix: extend the form in a buffer of its own

The path parameter was appended to a form allocated for the request body only.
---
 router.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/router.c b/router.c
index 583620d..7f3805a 100644
--- a/router.c
+++ b/router.c
@@ -141,10 +141,9 @@ void router_handle_request(api_request *request)
       }
       else
       {
-        char *param;
-        asprintf(&param, "&%s", qs);
-        strcat(request->form, param);
-        free(param);
+        char *form;
+        asprintf(&form, "%s&%s", request->form, qs);
+        request->form = form;
       }
       free(qs);
       handler = routing_table.handlers[i];
-- 
2.43.0


From 8a68f3d13c73dc1493702936561e8f4e2a617b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:58 +0000
Subject: [PATCH 08/40] fix: do not write past the end of the routing table

---
 router.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/router.c b/router.c
index 7f3805a..332fa31 100644
--- a/router.c
+++ b/router.c
@@ -93,6 +93,11 @@ void router_add_route(char *template, request_handler handler, request_filter fi
 {
 
   log_debug("ADD ROUTE - %s", template);
+  if (routing_table.n_routes >= MAX_ROUTES)
+  {
+    log_error("Routing table is full, ignoring route %s", template);
+    return;
+  }
   route_matcher *matcher = calloc(1, sizeof(route_matcher));
   if (strchr(template, '{') != NULL)
   {
-- 
2.43.0


From fa0b91a90827154aaf6869771f1df29367d95b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:58 +0000
Subject: [PATCH 09/40] fix: send the status line of a static file once

---
 http_utils.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index f848dd7..8aba2a2 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -89,8 +89,6 @@ int return_headers(api_request *req, char *filename)
 	int len = 0;
 	char buf[1024];
 	sprintf(buf, "%s%s", HTTP_OK_START, WAYUU_HTTP_SERVER_STRING);
-	len += strlen(buf);
-	http_print(req, buf, len);
 	char *content_type = get_content_type(filename);
 	strcat(buf, content_type);
 	free(content_type);
-- 
2.43.0


From cbcb2829fae923bb83f932ba530398e6028443c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:59 +0000
Subject: [PATCH 10/40] fix: content type of CSV and of unknown types

The comparison was inverted: CSV was sent as a byte stream and everything
unknown as CSV.
---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 8aba2a2..d224509 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -129,7 +129,7 @@ char *get_content_type(char *filename)
 		sprintf(buf, CONTENT_TYPE_ICON);
 	else if (strcmp(ext, ".txt") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(ext, ".csv"))
+	else if (strcmp(ext, ".csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(ext, ".yaml") == 0)
 	{
@@ -157,7 +157,7 @@ char *get_content_type_for_mime(char *mime)
 		sprintf(buf, CONTENT_TYPE_CSS);
 	else if (strcmp(mime, "text/plain") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(mime, "text/csv"))
+	else if (strcmp(mime, "text/csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(mime, "text/yaml") == 0)
 	{
-- 
2.43.0


From 6e2ba2a8f11c71219d06d19f3f3c4c5542ba93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:00 +0000
Subject: [PATCH 11/40] fix: do not use uninitialised parts in return_response

---
 http_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index d224509..2433a1c 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -530,10 +530,10 @@ char *http_get_header(api_request *req, char *name)
 char *return_response(call_response_t rsp)
 {
 	char *aux;
-	char *aux_err;
-	char *aux_txt;
+	char *aux_err = NULL;
+	char *aux_txt = NULL;
 	char *aux_additional_info;
-	char *aux_description;
+	char *aux_description = NULL;
 
 	if (rsp.status == -1)
 		asprintf(&aux_err, "\"RSP\":\"FAIL\"");
@@ -553,7 +553,7 @@ char *return_response(call_response_t rsp)
 	else
 		asprintf(&aux_additional_info, ",\"data\":%s", "\"\"");
 
-	asprintf(&aux, "{%s%s%s%s}", aux_err, (aux_txt ? aux_txt : ""), (aux_description ? aux_description : ""), (aux_additional_info ? aux_additional_info : ""));
+	asprintf(&aux, "{%s%s%s%s}", (aux_err ? aux_err : ""), (aux_txt ? aux_txt : ""), (aux_description ? aux_description : ""), (aux_additional_info ? aux_additional_info : ""));
 
 	if (aux_err)
 		free(aux_err);
-- 
2.43.0


From f6b87f42de2faeffbcb624e03e98ae7300b9bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:00 +0000
Subject: [PATCH 12/40] fix: do not write before a request line shorter than
 its line end

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 2a9c88f..cd9c98f 100644
--- a/ws.c
+++ b/ws.c
@@ -505,8 +505,8 @@ void accept_request(int socket)
 	log_trace("IP: %s, Request: %s", req->IP, buf);
 
 	req->request_line = strdup(buf);
-	// The request line ends in the two characters \r\n
-	req->request_line[strlen(req->request_line) - 2] = 0;
+	// The request line ends in the two characters \r\n, if it is complete
+	req->request_line[strcspn(req->request_line, "\r\n")] = 0;
 
 	// HTTP METHOD
 	i = 0;
-- 
2.43.0


From 5ffb1245ddee807eb064f4640873fc0b81c9a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 13/40] fix: check the index before reading the request line

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index cd9c98f..bcd7ffe 100644
--- a/ws.c
+++ b/ws.c
@@ -532,12 +532,12 @@ void accept_request(int socket)
 
 // Parse URL
 	i = 0;
-	while (isspace((int)(buf[j])) && (j < sizeof(buf)))
+	while ((j < sizeof(buf)) && isspace((int)(buf[j])))
 	{
 		j++;
 	}
 	// URL
-	while (!isspace((int)(buf[j])) && (i < sizeof(url) - 1) && (j < sizeof(buf)))
+	while ((i < sizeof(url) - 1) && (j < sizeof(buf)) && !isspace((int)(buf[j])))
 	{
 		url[i] = buf[j];
 		i++;
-- 
2.43.0


From 927b9a80e0ded762428f584b504a3050ad226948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 14/40] fix: keep long header names, values and sessions
 terminated

---
 ws.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index bcd7ffe..6934a2d 100644
--- a/ws.c
+++ b/ws.c
@@ -575,9 +575,9 @@ void accept_request(int socket)
 			if (nameval->n_str > 1)
 			{
 				log_trace("Found header: %s, %s", nameval->strings[0], nameval->strings[1]);
-				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME);
+				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME - 1);
 				trim(nameval->strings[1]);
-				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE);
+				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE - 1);
 				headers_idx++;
 			}
 			free_str_list_t(nameval);
@@ -615,7 +615,7 @@ void accept_request(int socket)
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION);
+			strncpy(req->session, buf + 10, MAX_SESSION - 1);
 			trim(req->session);
 		}
 
-- 
2.43.0


From b81dba0f01800a8ea6cd9172587fa492a868fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 15/40] fix: do not overflow the multipart boundary

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 6934a2d..1aba27e 100644
--- a/ws.c
+++ b/ws.c
@@ -592,7 +592,7 @@ void accept_request(int socket)
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
 			{
-				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary=")); // TODO: Validate size
+				snprintf(multipart_boundary, sizeof(multipart_boundary), "--%s", boundary + strlen("boundary="));
 				trim(multipart_boundary);
 			}
 		}
-- 
2.43.0


From fdbd17e4365eb440a6611fa714afae9f469d1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 16/40] fix: take header values from their own header line

Fixed offsets assumed a space after the colon and a certain name length: a
shorter line gave text left over from an earlier header, 'Content-Length:5' was
read as 0 and an Authorization header as 'ion: ...'. A session cookie kept its
line end, which then ended the response headers early.
---
 ws.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ws.c b/ws.c
index 1aba27e..64dc4b2 100644
--- a/ws.c
+++ b/ws.c
@@ -584,7 +584,8 @@ void accept_request(int socket)
 		}
 		if (startswith(buf, "Content-Type:"))
 		{
-			req->content_type = rtrim(&(buf[14]), ';');
+			req->content_type = rtrim(&(buf[13]), ';');
+			trim(req->content_type);
 		}
 		/* Get multipart boundary */
 		if (startswith(buf, "Content-Type: multipart/form-data"))
@@ -600,7 +601,7 @@ void accept_request(int socket)
 		/* Get content length */
 		if (startswith(buf, "Content-Length:"))
 		{
-			content_length = atoi(&(buf[16]));
+			content_length = atoi(&(buf[15]));
 		}
 
 		// Get original IP if behind proxy
@@ -608,21 +609,22 @@ void accept_request(int socket)
 		{
 			free(req->IP);
 			req->IP = calloc(26, 1);
-			trim(buf);
-			strncpy(req->IP, buf + 11, 24);
+			trim(buf + 10);
+			strncpy(req->IP, buf + 10, 24);
 		}
 
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION - 1);
+			strncpy(req->session, strchr(buf, ':') + 1, MAX_SESSION - 1);
 			trim(req->session);
 		}
 
-		if (startswith(buf, "Cookie:") && req->session[0] == 0)
+		if (startswith(buf, "Cookie: WSSESSION=") && req->session[0] == 0)
 		{
 			if (strlen(buf + 18) < MAX_SESSION)
 				strcpy(req->session, buf + 18);
+			trim(req->session);
 		}
 
 		numchars = get_line(req, buf, sizeof(buf));
-- 
2.43.0


From b5021cbe6522b9a3513714a7378730bb367275f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 17/40] fix: bound and terminate the tokens of split and
 split_once

More than MAX_SPLIT_STR tokens were written past the list, tokens as long as
their buffer were not terminated, and concurrent requests shared strtok's state.
---
 string_utils.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 1c220d7..d218a0d 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -173,19 +173,19 @@ str_list_t *split(char *str, char *delim)
   char *str_copy = strdup(str);
   int n_tokens = 0;
   str_list_t *result = malloc(sizeof(result) + (MAX_SPLIT_STR + 1) * MAX_SPLIT_STR_LEN);
-  char *token = strtok(str_copy, delim);
+  char *saveptr = NULL;
+  char *token = strtok_r(str_copy, delim, &saveptr);
 
-  while (token != NULL)
+  while (token != NULL && n_tokens < MAX_SPLIT_STR)
   {
-    result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[n_tokens] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
 
-    token = strtok(NULL, delim);
+    token = strtok_r(NULL, delim, &saveptr);
     n_tokens++;
   }
 
   result->n_str = n_tokens;
-  free(token);
   free(str_copy);
   return result;
 }
@@ -194,7 +194,7 @@ str_list_t *split_once(char *str, char *delim)
 {
 
   str_list_t *result = malloc(sizeof(result) + (2 + 1) * MAX_SPLIT_STR_LEN);
-  result->strings[0] = malloc(MAX_SPLIT_STR_LEN);
+  result->strings[0] = calloc(MAX_SPLIT_STR_LEN, 1);
   char *first = rtrim(str, ':');
   trim(first);
   strncpy(result->strings[0], first, MAX_SPLIT_STR_LEN - 1);
@@ -202,7 +202,7 @@ str_list_t *split_once(char *str, char *delim)
   if (strlen(second) < strlen(str))
   {
     trim(second);
-    result->strings[1] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[1] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[1], second, MAX_SPLIT_STR_LEN - 1);
     result->n_str = 2;
   }
-- 
2.43.0


From 9fd358ac33de8bef8fc431099067d703f436bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 18/40] fix: split the URL at the first question mark

An empty URL or '?' used an uninitialised token, a leading '?' made the query
the path, and a second '?' cut the query off.
---
 http_utils.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 2433a1c..17d8bec 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -450,20 +450,18 @@ path_and_query_t *get_path_and_query_string(char *url)
 
 	path_and_query_t *result = malloc(sizeof(path_and_query_t));
 
-	str_list_t *list = split(url, "?");
+	result->path = rtrim(url, '?');
 
-	result->path = strdup(list->strings[0]);
-
-	if (list->n_str > 1)
+	char *query = strchr(url, '?');
+	if (query != NULL && query[1] != 0)
 	{
-		result->query = strdup(list->strings[1]);
+		result->query = strdup(query + 1);
 	}
 	else
 	{
 		result->query = "";
 	}
 
-	free_str_list_t(list);
 	return result;
 }
 
-- 
2.43.0


From 93e2debba3b871d3a5f051b8c50c225a1b8ce47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 19/40] fix: write only the digest in md5sum

128 bytes, most of them uninitialised, were copied into the caller's buffer of 36.
---
 string_utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index d218a0d..92018f9 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -125,8 +125,7 @@ void md5sum(char *out, char *data, int len)
   for (i = 0; i < EVP_MD_size(md); ++i)
     snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
   
-  memcpy(out, md5, EVP_MAX_MD_SIZE * 2);
-  out[EVP_MAX_MD_SIZE * 2] = 0;
+  strcpy(out, md5);
   free(md5);
 }
 
-- 
2.43.0


From 3da7a2addca388e696b49380fa896b64cfe02575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 20/40] fix: ignore multipart parts without room for their line
 end

The length of the data came out negative and the copy ran through memory.
---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 64dc4b2..cb08782 100644
--- a/ws.c
+++ b/ws.c
@@ -188,7 +188,8 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			sprintf(tmpfields + strlen(tmpfields), "&");
 
 		long start_file = text_find_after(tmpdata, "; filename=\"", 0, strlen(tmpdata));
-		if (data_start > 0)
+		/* The data is followed by the line end before the next boundary */
+		if (data_start > 0 && data_start + 2 <= actuallength)
 		{
 			/* Save filename */
 			if (start_file > 0)
-- 
2.43.0


From ba886739d8639df8a4bfaabf1817ce9c49985f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:44 +0000
Subject: [PATCH 21/40] fix: do not read the previous multipart part through a
 shorter one

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index cb08782..060ce97 100644
--- a/ws.c
+++ b/ws.c
@@ -265,6 +265,7 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 
 		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
+		tmppart[tmppart_len] = 0;
 
 		part_parse(IP, tmpfields, tmppart, tmppart_len);
 
-- 
2.43.0


From 04504243a7b486ba181203e8c9d884c85c94534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:44 +0000
Subject: [PATCH 22/40] fix: make room for the decoded multipart form

The names of the temporary files can make it longer than the request body.
---
 ws.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ws.c b/ws.c
index 060ce97..8ab33b5 100644
--- a/ws.c
+++ b/ws.c
@@ -243,7 +243,10 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
 }
 
-void multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
+/**
+ * multipart_parse: Decodes a multipart form and returns it in a newly allocated string
+ */
+char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
 	char *tmppart = calloc(content_length + 1, 1);
@@ -267,16 +270,16 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 		memcpy(tmppart, form + part_start, tmppart_len);
 		tmppart[tmppart_len] = 0;
 
+		/* A part adds at most its field and its value or file names */
+		tmpfields = realloc(tmpfields, strlen(tmpfields) + 2 * (long)tmppart_len + MAX_ORIG_FILENAME + 128);
 		part_parse(IP, tmpfields, tmppart, tmppart_len);
 
 		trim(tmppart);
 		ptr = part_start + 1;
 	}
 
-	strcpy(form, tmpfields);
-
-	free(tmpfields);
 	free(tmppart);
+	return tmpfields;
 }
 
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
@@ -306,7 +309,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
-			multipart_parse(req->form, req->IP, multipart_boundary, content_length);
+		{
+			char *fields = multipart_parse(req->form, req->IP, multipart_boundary, content_length);
+			free(req->form);
+			req->form = fields;
+		}
 		
 	}
 	// Delegate request to router
-- 
2.43.0


From f9b3cf3630d9555cadd31b55d0cf275cdab0b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 23/40] fix: stop reading the body when the client does

The rest of the body was filled up with the last character received.
---
 ws.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 8ab33b5..152a7f4 100644
--- a/ws.c
+++ b/ws.c
@@ -299,10 +299,12 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	{
 		char c = '\0';
 		req->form = malloc(content_length + 1);
+		req->form[0] = 0;
 		long formptr = 0;
 		for (int i = 0; i < content_length; i++)
 		{
-			http_read_char(req, &c);
+			if (http_read_char(req, &c) <= 0)
+				break;
 			req->form[formptr++] = c;
 			req->form[formptr] = 0;
 		}
@@ -310,7 +312,7 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
 		{
-			char *fields = multipart_parse(req->form, req->IP, multipart_boundary, content_length);
+			char *fields = multipart_parse(req->form, req->IP, multipart_boundary, formptr);
 			free(req->form);
 			req->form = fields;
 		}
-- 
2.43.0


From 3334a11f4ad2b928414501ace7998fa1c06e6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 24/40] fix: look for the final slash in the request path

An uninitialised buffer was examined instead.
---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 152a7f4..162ebbf 100644
--- a/ws.c
+++ b/ws.c
@@ -326,7 +326,7 @@ void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
 	char path[1024];
-	int pathlen = strlen(path);
+	int pathlen = strlen(req->path);
 	/**
 	 *  Handle default routes. URL Rewritting.
 	 */
@@ -342,7 +342,7 @@ void handle_static_routes(api_request *req)
 		req->path = strdup(FAVICON_URL);
 	}
 	// If static route ends with '/', then redirect to the index.html in the folder.
-	else if (path[pathlen-1] == '/')
+	else if (pathlen > 0 && req->path[pathlen-1] == '/')
 	{
 
 		sprintf(path, "%s%s", req->path, "index.html");
-- 
2.43.0


From b81e10d372e7afe7dbce04b72339704508daffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 25/40] fix: do not serve files outside the static root

GET /../ssl/key.pem returned the private key of the server.
---
 ws.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ws.c b/ws.c
index 162ebbf..a314147 100644
--- a/ws.c
+++ b/ws.c
@@ -322,11 +322,31 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	router_handle_request(req);
 }
 
+/* Returns true if any segment of path is ".." */
+bool has_parent_segment(char *path)
+{
+	for (char *p = strstr(path, ".."); p != NULL; p = strstr(p + 1, ".."))
+	{
+		if ((p == path || p[-1] == '/') && (p[2] == 0 || p[2] == '/'))
+			return true;
+	}
+	return false;
+}
+
 void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
 	char path[1024];
 	int pathlen = strlen(req->path);
+
+	/* Never leave the static root */
+	if (has_parent_segment(req->path))
+	{
+		log_warn("IP:%s Path leaves the static root: %s", req->IP, req->path);
+		bad_request(req);
+		return;
+	}
+
 	/**
 	 *  Handle default routes. URL Rewritting.
 	 */
-- 
2.43.0


From 4d152b2d80a89e243d81996f94c72cc15e595a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:47 +0000
Subject: [PATCH 26/40] fix: answer 404 when there is no index document either

The connection was closed without any response.
---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index a314147..656ac05 100644
--- a/ws.c
+++ b/ws.c
@@ -377,7 +377,8 @@ void handle_static_routes(api_request *req)
 	if (direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
-		direct_file(req, path);
+		if (direct_file(req, path) < 0)
+			not_found(req);
 	}
 }
 
-- 
2.43.0


From b7a1474bde37b95cfcff7e69528207a1d8c2f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:47 +0000
Subject: [PATCH 27/40] fix: do not overflow the path of a limit rule

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 656ac05..e017ca1 100644
--- a/ws.c
+++ b/ws.c
@@ -897,7 +897,7 @@ path_limits *load_limits()
 				/* Tokenize line, comma delimited */
 				char *token;
 				token = strtok(line, ",");
-				strcpy(out[path_rules].path, token);
+				strncpy(out[path_rules].path, token, HTTP_MAX_PATH - 1);
 				int i = 1;
 				while (token != NULL)
 				{
-- 
2.43.0


From 6f4eb53de0ae949ecba98f5d1d8d2f90d4f7ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 28/40] fix: close connections that do not fit in the queue

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index e017ca1..7f880b9 100644
--- a/ws.c
+++ b/ws.c
@@ -844,6 +844,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			else
 			{
 				log_warn("IP:%s Connection dropped. No threads available", IP);
+				close(client_sock);
 			}
 			pthread_mutex_unlock(&ws_mutex);
 			pthread_cond_signal(&ws_cond);
-- 
2.43.0


From 2e4ae218dc27d0b0fdffafb87eb3ccf50fc47d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 29/40] fix: release the peer address of every accepted
 connection

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 7f880b9..2911a19 100644
--- a/ws.c
+++ b/ws.c
@@ -849,6 +849,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			pthread_mutex_unlock(&ws_mutex);
 			pthread_cond_signal(&ws_cond);
 		}
+		free(IP);
 	}
 
 	log_info("WAYUU WS shutting down");
-- 
2.43.0


From 95d9fb154dbb65d76a0675ed092ecfe7ab8376d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 30/40] fix: send status messages of any length

A message of more than about 900 bytes overflowed the header buffer.
---
 http_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 17d8bec..11df642 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -427,7 +427,6 @@ void send_http_status(api_request *req, int status, char *message)
 		char contentLength[100];
 		sprintf(contentLength, "Content-Length: %zu%s%s", strlen(message) + 2, CRLF, CRLF);
 		strcat(buf, contentLength);
-		strcat(buf, message);
 	}
 	else
 	{
@@ -435,6 +434,11 @@ void send_http_status(api_request *req, int status, char *message)
 	}
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
+	if (strcmp("", message))
+	{
+		http_print_str(req, message);
+		req->response_length += strlen(message);
+	}
 	strcpy(buf, "\r\n");
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
-- 
2.43.0


From 39843ad712518c31c685e465f25005234b1a593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 31/40] fix: send no body for a status code without status line

The body followed no status line at all; send_http_status ignores such codes.
---
 http_utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/http_utils.c b/http_utils.c
index 11df642..0a5a803 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -319,6 +319,10 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 void return_json_stream(api_request *req, int status, FILE *fp)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+	{
+		return;
+	}
 	char buf[1024];
 	strcpy(buf, "\r\n");
 	http_print(req, buf, strlen(buf));
@@ -330,6 +334,10 @@ void return_json_stream(api_request *req, int status, FILE *fp)
 void return_json_with_status(api_request *req, int status, char *data)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+	{
+		return;
+	}
 
 	char buf[1024];
 	sprintf(buf, "Content-Length: %zu\r\n\r\n", strlen(data) + 2);
-- 
2.43.0


From 54feff89e37539f257edebaf5e3794038a61aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 32/40] fix: do not overflow the fields of an error record

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 0a5a803..b23044a 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -508,8 +508,8 @@ char *wayuu_error_t_json_serializer(wayuu_error_t *error)
 wayuu_error_t *new_error_with_values(char *code, char *message)
 {
 	wayuu_error_t *error = malloc(sizeof(wayuu_error_t));
-	strcpy(error->code, code);
-	strcpy(error->message, message);
+	snprintf(error->code, sizeof(error->code), "%s", code);
+	snprintf(error->message, sizeof(error->message), "%s", message);
 	return error;
 }
 
-- 
2.43.0


From a00861659ca41d5d3eb326399b35806c14fdc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 33/40] fix: accept a missing value in json_key_value

---
 json_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_utils.c b/json_utils.c
index ac3bed7..d330514 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -87,7 +87,7 @@ char *json_array_of_entities(json_list_t list)
 
 char *json_key_value(char *key, char *value)
 {
-  char *json = calloc(1, strlen(key) + strlen(value) + 15);
+  char *json = calloc(1, strlen(key) + (value ? strlen(value) : 0) + 15);
   sprintf(json, "\"%s\":\"%s\"", key, value? value : "");
   return json;
 }
-- 
2.43.0


From 81043286a756decd2d9b9f9c5c3a67c25ad9b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 34/40] fix: join always returns an allocated string

Callers released the constant returned for a missing first element, and a
missing last element was copied.
---
 json_utils.c   |  6 ++----
 string_utils.c | 11 +++++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/json_utils.c b/json_utils.c
index d330514..fe200be 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -73,10 +73,8 @@ char *json_array_of_entities(json_list_t list)
   strcpy(json, JSON_ARRAY_BEGIN);
   strcat(json, joined_str);
   strcat(json, JSON_ARRAY_END);
-  
-  if (joined_str && *joined_str!='\0')
-    free(joined_str);
- 
+  free(joined_str);
+
   for (int i = 0; i < list.size; i++)
   {
     free(json_entities[i]);
diff --git a/string_utils.c b/string_utils.c
index 92018f9..f9da529 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -136,7 +136,7 @@ char *join(char **array, int size, char *delim)
 {
   if (array == NULL || size <= 0 || array[0] == NULL)
   {
-    return "";
+    return strdup("");
   }
   if (size == 1)
   {
@@ -161,9 +161,12 @@ char *join(char **array, int size, char *delim)
       strcat(joined_str, delim);
     }
   }
-  tmp = strdup(array[size - 1]);
-  strcat(joined_str, tmp);
-  free(tmp);
+  if (array[size - 1] != NULL)
+  {
+    tmp = strdup(array[size - 1]);
+    strcat(joined_str, tmp);
+    free(tmp);
+  }
   return joined_str;
 }
 
-- 
2.43.0


From daee59d41d5149dda9fa0e7fc62e608d2f747575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:49 +0000
Subject: [PATCH 35/40] fix: split configuration lines at their first delimiter

---
 conf_parser.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 6279474..747567d 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -78,15 +78,12 @@ conf_item *conf_parse_first_pass(char *line)
   char *line_copy = strdup(line);
   trim(line_copy);
   // Get the key
-  char *key = strtok(line_copy, DELIM);
-  result->key = strdup(key);
+  char *value = strchr(line_copy, DELIM[0]);
+  *value = 0;
+  result->key = strdup(line_copy);
   trim(result->key);
   // store the value
-  char *value = strtok(NULL, DELIM);
-  if (value == NULL)
-  {
-    value = "";
-  }
+  value++;
 
   if (strcmp(value, ""))
   {
-- 
2.43.0


From a2d257b736a962b2603ddc91dfbee19a672c5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 36/40] fix: ignore configuration values beyond the maximum

---
 conf_parser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 747567d..46a3e8b 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -48,7 +48,7 @@ void conf_parse_multi(conf_item *item)
     {
       i++;
       tmp_value = strtok(NULL, MULTI_DELIM);
-      if (tmp_value != NULL)
+      if (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
       {
         item->multivalue[i] = strdup(tmp_value);
         trim(item->multivalue[i]);
@@ -56,7 +56,6 @@ void conf_parse_multi(conf_item *item)
     }
   }
   item->n_multivalues = i;
-  free(tmp_value);
   free(value);
 }
 
-- 
2.43.0


From cdd95f35cb54f208cd6d7aa1e1659f461c1113c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 37/40] fix: report an invalid multivalued configuration line

---
 conf_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index 46a3e8b..34c44bc 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -105,7 +105,7 @@ conf_item *conf_parse_first_pass(char *line)
 conf_item *conf_parse_line(char *line, bool is_multi)
 {
   conf_item *result = conf_parse_first_pass(line);
-  if (is_multi)
+  if (is_multi && result != NULL)
   {
     conf_parse_multi(result);
   }
-- 
2.43.0


From d8a86d8ca55cc049159a7c6bcf086c48c421341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 38/40] fix: size the texts about configuration files

---
 conf_parser.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 34c44bc..01dc679 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -118,7 +118,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open path: %s", path);
+    snprintf(errorString, sizeof(errorString), "Unable to open path: %s", path);
     perror(errorString);
     return -1;
   }
@@ -129,7 +129,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     if (item == NULL)
     {
       char errorString[120];
-      sprintf(errorString, "Entity in invalid format, path: %s\n", path);
+      snprintf(errorString, sizeof(errorString), "Entity in invalid format, path: %s\n", path);
       perror(errorString);
       fclose(file);
       return -1;
@@ -250,7 +250,7 @@ int write_conf(void *input, conf_serializer serializer)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open file %s for writing", s->path);
+    snprintf(errorString, sizeof(errorString), "Unable to open file %s for writing", s->path);
     perror(errorString);
     return -1;
   }
@@ -281,12 +281,15 @@ serializable *new_serializable(char *path, conf_item *items[], int n_items)
 
 char *serializable_to_string(serializable *s)
 {
-  char *result = malloc(1024 * sizeof(char));
+  char *result = malloc(strlen(s->path) + 64);
   sprintf(result, "[path=%s,n_items=%d", s->path, s->n_items);
   for (int i = 0; i < s->n_items; i++)
   {
+    char *item = conf_item_to_string(s->items[i]);
+    result = realloc(result, strlen(result) + strlen(item) + 3);
     strcat(result, ",");
-    strcat(result, conf_item_to_string(s->items[i]));
+    strcat(result, item);
+    free(item);
   }
   strcat(result, "]");
   return result;
-- 
2.43.0


From b76b0bf7fc8722a049bdd9cbe4b5b454ff0b3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 39/40] fix: serve static files from the root given with -r

---
 main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 5a88d42..3f7e97a 100644
--- a/main.c
+++ b/main.c
@@ -78,13 +78,14 @@ int main(int argc, char *argv[])
       exit(EXIT_SUCCESS);
       break;
     case 'b':
-      strcpy(bind_addr, optarg);
+      snprintf(bind_addr, sizeof(bind_addr), "%s", optarg);
       break;
     case 'p':
       ws_port = atoi(optarg);
       break;
     case 'r':
-      strcpy(WAYUU_WS_ROOT, optarg);
+      snprintf(WAYUU_WS_ROOT, ROOT_PATH_MAX, "%s", optarg);
+      sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);
       log_info("WAYUU ROOT now: %s", WAYUU_WS_ROOT);
       if (!is_dir(WAYUU_WS_ROOT))
       {
-- 
2.43.0


From 042e35e0b1476bcc5f353bf9ecd2f56a6ef3e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 40/40] fix: size the parameter text for the parameter's name

router_extract_param sized its buffer from the route's prefix, so a parameter
name longer than that overran it.
---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 332fa31..d5409d2 100644
--- a/router.c
+++ b/router.c
@@ -83,7 +83,7 @@ char *router_extract_param(const char *path, route_matcher *matcher)
   log_debug("router_extract_param(path=%s,prefix=%s,param=%s)", path, matcher->prefix, matcher->param);
   char *tmp = strdup(path);
   int prefix_len = strlen(matcher->prefix);
-  char *qs = calloc(1, strlen(tmp) + prefix_len + 10);
+  char *qs = calloc(1, strlen(tmp) + strlen(matcher->param) + 10);
   sprintf(qs, "%s=%s", matcher->param, tmp + prefix_len);
   free(tmp);
   return qs;
-- 
2.43.0

