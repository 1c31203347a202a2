From eab6a0a2e3849f82948e3010582de4160c395f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 001/130] fix: serialize 8- and 16-bit atoms from their own
 value, not from stale bytes of the word

---
 osc_atom_u.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..772e9b9 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1355,7 +1355,8 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			// convert the member that is in use; the other bytes of the word are not part of the value
+			int32_t i = osc_atom_u_getInt32(a);
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
-- 
2.43.0


From 008465e873b235fda5a8ca179a648d392cfe134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 002/130] fix: bundle sanity check validates lengths,
 addresses, type tags and data within the message

---
 osc_error.c | 93 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 84 insertions(+), 9 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..e168bdd 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -28,6 +28,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_mem.h"
 #include "osc_bundle_s.h"
 #include "osc_byteorder.h"
+#include "osc_util.h"
 
 int osc_error_defaultHandler(void *context, const char * const errorstr)
 {
@@ -146,32 +147,106 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 		return OSC_ERR_NOBUNDLEID;
 	}
 	char *ptr = bundle + OSC_HEADER_SIZE;
-	int cumsize = OSC_HEADER_SIZE;
-	while((ptr - bundle) < len){
-		cumsize += 4; // msg size
-		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
-		if(cumsize > len){
+	long left = len - OSC_HEADER_SIZE;
+	while(left > 0){
+		if(left < 4){
+			return OSC_ERR_MSGTOOSMALL;
+		}
+		int32_t size = ntoh32(*((uint32_t *)ptr));
+		left -= 4;
+		if(size < 0 || size > left){
 			return OSC_ERR_MSGTOOLARGE;
 		}
-		int ret;
+		t_osc_err ret;
 		if((ret = osc_error_msgSanityCheck(ptr))){
 			return ret;
 		}
 		ptr += size + 4;
+		left -= size;
 	}
 	return OSC_ERR_NONE;
 }
 
+// the length of the string at ptr including its padding, or -1 if it doesn't end within n bytes
+static long osc_error_paddedStringLen(char *ptr, long n)
+{
+	char *end = n > 0 ? memchr(ptr, '\0', n) : NULL;
+	if(!end){
+		return -1;
+	}
+	long len = osc_util_getPaddingForNBytes(end - ptr);
+	return len <= n ? len : -1;
+}
+
+// the number of bytes that an argument occupies, or -1 if it is unknown or doesn't fit in n bytes
+static long osc_error_argLen(char typetag, char *data, long n)
+{
+	long len = -1;
+	switch(typetag){
+	case 's':
+	case 'S':
+		return osc_error_paddedStringLen(data, n);
+	case 'b':
+	case OSC_BUNDLE_TYPETAG:
+		{
+			if(n < 4){
+				return -1;
+			}
+			int32_t size = ntoh32(*((uint32_t *)data));
+			if(size < 0 || size > n - 4){
+				return -1;
+			}
+			if(typetag == 'b'){
+				len = osc_util_getBlobLength(size);
+			}else if(!osc_error_bundleSanityCheck(size, data + 4)){
+				len = size + 4L;
+			}
+		}
+		break;
+	default:
+		if(typetag > 0){
+			len = (int)osc_sizeof(typetag, data);
+		}
+	}
+	return len <= n ? len : -1;
+}
+
 t_osc_err osc_error_msgSanityCheck(char *msg)
 {
-	int size = ntoh32(*((uint32_t *)msg));
+	int32_t size = ntoh32(*((uint32_t *)msg));
 	if(size < 4){
 		return OSC_ERR_MSGTOOSMALL;
 	}
-	if(*(msg + 4) != '/'){
+	char *ptr = msg + 4;
+	if(*ptr != '/'){
+		return OSC_ERR_MALFORMEDADDRESS;
+	}
+	long left = size;
+	long len = osc_error_paddedStringLen(ptr, left);
+	if(len < 0){
 		return OSC_ERR_MALFORMEDADDRESS;
 	}
+	ptr += len;
+	left -= len;
+	if(left == 0){
+		// no typetags, so no arguments
+		return OSC_ERR_NONE;
+	}
+	char *typetags = ptr;
+	len = osc_error_paddedStringLen(ptr, left);
+	if(len < 0 || *typetags != ','){
+		return OSC_ERR_BADTYPETAG;
+	}
+	ptr += len;
+	left -= len;
+	while(*++typetags){
+		len = osc_error_argLen(*typetags, ptr, left);
+		if(len < 0){
+			return OSC_ERR_BADTYPETAG;
+		}
+		ptr += len;
+		left -= len;
+	}
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 56e71db1c70ac2fc823ade565bbf7a4f41edec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 003/130] fix: bounded formatting never writes past the given
 buffer and always terminates

---
 osc_atom_s.c    |  7 +++++--
 osc_atom_u.c    |  7 +++++--
 osc_bundle_s.c  | 12 ++++++++----
 osc_bundle_u.c  | 14 +++++++++-----
 osc_message_s.c | 17 +++++++++--------
 osc_message_u.c | 13 +++++++------
 osc_strfmt.c    | 40 +++++++++++++++++-----------------------
 osc_strfmt.h    |  4 ++++
 8 files changed, 64 insertions(+), 50 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..10404af 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -433,7 +433,7 @@ int osc_atom_s_getStringLen(t_osc_atom_s *a)
 	case 'C': // unsigned 8-bit int
 		{
 			uint8_t i = (uint8_t)ntoh32(*((int32_t *)(a->data)));
-			return osc_strfmt_uint32(NULL, 0, i);
+			return osc_strfmt_uint8(NULL, 0, i);
 		}
 	case 'u': // signed 16-bit int
 		{
@@ -489,9 +489,12 @@ int osc_atom_s_getString(t_osc_atom_s *a, size_t n, char **out)
 	if(!(*out)){
 		return 0;
 	}
+	if(nn > 0){
+		(*out)[0] = '\0';
+	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->data, nn);
+		snprintf(*out, nn, "%s", a->data);
 		break;
 	case 'i': // signed 32-bit int
 		{
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 772e9b9..3ea7e41 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -738,7 +738,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
@@ -771,9 +771,12 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	if(!(*out)){
 		return 0;
 	}
+	if(nn > 0){
+		(*out)[0] = '\0';
+	}
 	switch(a->typetag){
 	case 's': // string
-		strncpy(*out, a->w.s, nn);
+		snprintf(*out, nn, "%s", a->w.s);
 		break;
 	case 'i': // signed 32-bit int
 		osc_strfmt_int32(*out, nn, a->w.i);
diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..00dd348 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -26,6 +26,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_match.h"
 #include "osc_timetag.h"
 
@@ -626,6 +627,9 @@ char *osc_bundle_s_pformat(t_osc_bundle_s *bndl)
 
 long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl){
 		return 0;
 	}
@@ -650,9 +654,9 @@ long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int ninde
 	}else{
 		while(osc_bndl_it_s_hasNext(it)){
 			t_osc_msg_s *m = osc_bndl_it_s_next(it);
-			offset += osc_message_s_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_s_nformat(OSC_STRFMT_REST(buf, n, offset), m, nindent);
 			if(osc_bndl_it_s_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ",\n");
 			}
 		}
 	}
@@ -677,8 +681,8 @@ long osc_bundle_s_nformatNestedBndl(char *buf, long n, long bndllen, char *bndl,
 		offset += osc_bundle_s_nformat(NULL, 0, bndllen, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += osc_bundle_s_nformat(buf + offset, n - offset, bndllen, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += osc_bundle_s_nformat(OSC_STRFMT_REST(buf, n, offset), bndllen, bndl, nindent);
+		offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "\n%s}", tabs);
 	}
 	return offset;
 }
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..9fdbae9 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -26,6 +26,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <inttypes.h>
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_byteorder.h"
 #include "osc_match.h"
 #include "osc_message_u.h"
@@ -657,6 +658,9 @@ char *osc_bundle_u_format(t_osc_bndl_u *bndl)
 
 long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl || osc_bundle_u_getMsgCount(bndl) == 0){
 		return 0;
 	}
@@ -673,9 +677,9 @@ long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 	}else{
 		while(osc_bndl_it_u_hasNext(it) && offset < n){
 			t_osc_msg_u *m = osc_bndl_it_u_next(it);
-			offset += osc_message_u_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_u_nformat(OSC_STRFMT_REST(buf, n, offset), m, nindent);
 			if(osc_bndl_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ",\n");
 			}
 		}
 	}
@@ -700,9 +704,9 @@ long osc_bundle_u_nformatNestedBndl(char *buf, long n, t_osc_bndl_u *bndl, int n
 		offset += osc_bundle_u_nformat(NULL, 0, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += snprintf(buf + offset, n - offset, "{\n");
-		offset += osc_bundle_u_nformat(buf + offset, n - offset, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "{\n");
+		offset += osc_bundle_u_nformat(OSC_STRFMT_REST(buf, n, offset), bndl, nindent);
+		offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "\n%s}", tabs);
 
 	}
 	return offset;
diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..296f84d 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -31,6 +31,7 @@
 #include "osc_message_u.h"
 #include "osc_array.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_util.h"
 
 t_osc_msg_s *osc_message_s_alloc(void)
@@ -342,29 +343,29 @@ long osc_message_s_nformat(char *buf, long n, t_osc_msg_s *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : [", tabs, osc_message_s_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : ", tabs, osc_message_s_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_s_getAddress(m));
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s", tabs, osc_message_s_getAddress(m));
 		}
 		while(osc_msg_it_s_hasNext(it)){
 			//offset += snprintf(NULL, 0, " ");
 			t_osc_atom_s *a = osc_msg_it_s_next(it);
-			offset += osc_atom_s_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_s_nformat(OSC_STRFMT_REST(buf, n, offset), a, nindent);
 			if(osc_msg_it_s_hasNext(it)){
 				//if(osc_atom_s_getTypetag(a) == OSC_BUNDLE_TYPETAG){
-				//offset += snprintf(buf + offset, n - offset, ",\n");
+				//offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ",\n");
 				//}else{
-					offset += snprintf(buf + offset, n - offset, ", ");
+					offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ", ");
 					//}
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "]");
 		}
-		//offset += snprintf(buf + offset, n - offset, "\n");
+		//offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "\n");
 	}
 	osc_msg_it_s_destroy(it);
 	return offset;
diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..3730232 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -31,6 +31,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_atom_array_u.h"
 #include "osc_message_iterator_u.h"
 #include "osc_mem.h"
+#include "osc_strfmt.h"
 #include "osc_byteorder.h"
 #include "osc_util.h"
 
@@ -1095,22 +1096,22 @@ long osc_message_u_nformat(char *buf, long n, t_osc_msg_u *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : [", tabs, osc_message_u_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s : ", tabs, osc_message_u_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_u_getAddress(m));
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "%s%s", tabs, osc_message_u_getAddress(m));
 		}
 		while(osc_msg_it_u_hasNext(it)){
 			t_osc_atom_u *a = osc_msg_it_u_next(it);
-			offset += osc_atom_u_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_u_nformat(OSC_STRFMT_REST(buf, n, offset), a, nindent);
 			if(osc_msg_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ", ");
+				offset += snprintf(OSC_STRFMT_REST(buf, n, offset), ", ");
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(OSC_STRFMT_REST(buf, n, offset), "]");
 		}
 	}
 	osc_msg_it_u_destroy(it);
diff --git a/osc_strfmt.c b/osc_strfmt.c
index 952dfc4..979674c 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -126,20 +126,14 @@ int osc_strfmt_blob(char *buf, size_t n, char *blob)
 {
 	char *ptr = blob + 4;
 	int32_t len = ntoh32(*((int32_t *)blob));
-	int c = 0;
-	if(buf){
-		c = snprintf(buf, n, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(buf + c, n - c, ", %d", *ptr++);
-		}
-		c += snprintf(buf + c, n - c, ")");
-	}else{
-		c = snprintf(NULL, 0, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(NULL, 0, ", %d", *ptr++);
-		}
-		c += snprintf(NULL, 0, ")");
+	if(!buf){
+		n = 0;
+	}
+	size_t c = snprintf(buf, n, "blob(");
+	for(int i = 0; i < len; i++){
+		c += snprintf(OSC_STRFMT_REST(buf, n, c), i ? ", %d" : "%d", *ptr++);
 	}
+	c += snprintf(OSC_STRFMT_REST(buf, n, c), ")");
 	return c;
 }
 
@@ -162,8 +156,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 	}
 
 	{
-		int i = 0;
-		for(int j = 0; j < len; j++){
+		size_t i = 0;
+		for(long j = 0; j < len; j++){
 			if(osc_strfmt_isMeta(str[j])){
 				if(i < n){
 					buf[i] = '\\';
@@ -177,8 +171,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 		}
 		if(i < n){
 			buf[i] = '\0';
-		}else{
-			buf[i - 1] = '\0';
+		}else if(n){
+			buf[n - 1] = '\0';
 		}
 		return i;
 	}
@@ -192,10 +186,10 @@ int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str)
 	if(!buf){
 		return osc_strfmt_stringWithQuotedMeta(buf, n, str) + 2;
 	}else{
-		char tmp[n];
-		int nn = osc_strfmt_stringWithQuotedMeta(tmp, n, str);
-		osc_strfmt_quotedString(buf, n, tmp);
-		return nn + 2;
+		size_t c = snprintf(buf, n, "\"");
+		c += osc_strfmt_stringWithQuotedMeta(OSC_STRFMT_REST(buf, n, c), str);
+		c += snprintf(OSC_STRFMT_REST(buf, n, c), "\"");
+		return c;
 	}
 }
 
@@ -213,7 +207,7 @@ int osc_strfmt_addQuotes(int len, char *buf, char **out)
 	}
 	strncpy((*out) + i, buf, len);
 	i += len;
-	if(buf[len - 1] != '\"'){
+	if(len < 1 || buf[len - 1] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	(*out)[i] = '\0';
@@ -250,7 +244,7 @@ int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **out)
 	}
 	int n = len + 2 + osc_strfmt_countMeta(len, buf);
 	if(!(*out)){
-		*out = osc_mem_alloc(n);
+		*out = osc_mem_alloc(n + 1);
 	}
 	int i = 0;
 	if(1){//buf[0] != '\"'){
diff --git a/osc_strfmt.h b/osc_strfmt.h
index 37fe9b2..bf97da8 100644
--- a/osc_strfmt.h
+++ b/osc_strfmt.h
@@ -43,6 +43,10 @@ extern "C" {
 
 #define OSC_STRFMT_META_CHARS ((char []){'"', '\\'})
 
+/* The buffer pointer and size to pass on to the next formatting call when offset characters
+   (possibly more than fit) have been produced already; never points past the end of buf. */
+#define OSC_STRFMT_REST(buf, n, offset) ((offset) < (n) ? (buf) + (offset) : NULL), ((offset) < (n) ? (n) - (offset) : 0)
+
 int osc_strfmt_int8(char *buf, size_t n, int8_t i);
 int osc_strfmt_int16(char *buf, size_t n, int16_t i);
 int osc_strfmt_int32(char *buf, size_t n, int32_t i);
-- 
2.43.0


From 0c6c88518921698b2c24b336363c8be3e5fcd500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 004/130] fix: exact time tag difference, ISO 8601 dates, UTC
 offsets and formatted length

---
 osc_timetag.c | 70 +++++++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index ba4e9f3..12cbeaf 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -63,25 +63,16 @@ t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
 	t_osc_timetag_ntptime t2_ntp = *((t_osc_timetag_ntptime *)(&t2));
 	t_osc_timetag_ntptime r;
 
-	if(t1_ntp.sec > t2_ntp.sec || (t1_ntp.sec == t2_ntp.sec && t1_ntp.frac_sec >= t2_ntp.frac_sec)){
-		r.sec = t1_ntp.sec - t2_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-		}else{
-			if(r.sec == 0){
-				r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
-			}else{
-				r.sec--;
-				r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-			}
-		}
-	}else{
-		r.sec = t2_ntp.sec - t1_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-		}else{
-			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
-		}
+	if(osc_timetag_compare(t1, t2) < 0){
+		// the difference is a magnitude
+		t_osc_timetag_ntptime tmp = t1_ntp;
+		t1_ntp = t2_ntp;
+		t2_ntp = tmp;
+	}
+	r.sec = t1_ntp.sec - t2_ntp.sec;
+	r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
+	if(t1_ntp.frac_sec < t2_ntp.frac_sec){ // borrow
+		r.sec -= 1;
 	}
 
 	return *((t_osc_timetag *)(&r));
@@ -309,7 +300,7 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	char s1[20];
 	if(!buf){
-		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
+		n = 0;
 	}
 	uint32_t secs = osc_timetag_ntp_getSeconds(timetag);
 	unsigned short int year, month, day, hour, minute, yrcount, leap = 0;
@@ -322,14 +313,13 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 0; secs >= SEC_PER_YEAR; year++){ //determine # years elapse since epoch
-		secs -= SEC_PER_YEAR;
-		if(osc_timetag_isleap(year)){
-			secs -= SEC_PER_DAY;
+	for(year = 1900; ; year++){ //determine # years elapsed since the ntp epoch, 1/1/1900, 00:00
+		DWORD year_secs = SEC_PER_YEAR + (osc_timetag_isleap(year) ? SEC_PER_DAY : 0);
+		if(secs < year_secs){
+			break;
 		}
+		secs -= year_secs;
 	}
-	//year+=1970;  //1/1/1970, 00:00 is epoch
-	year += 1900;  //1/1/1900, 00:00 is ntp epoch
 	//for (yrcount=1970;yrcount<year;yrcount++) //scroll from 1970 to last year to find leap yrs.
 	/*
 	for(yrcount = 1900; yrcount < year; yrcount++){
@@ -423,14 +413,12 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 		s1[i++] = '\0';
 	}
 
-	double d = osc_timetag_ntp_to_float(timetag);
-	double dm1 = fmod(d, 1.0);
-	//int l = osc_strfmt_float64(NULL, 0, dm1);
-	int l = snprintf(NULL, 0, "%05fZ", dm1);
-	char s2[l + 1];
-	snprintf(s2, l, "%05fZ", dm1);
-	//osc_strfmt_float64(s2, l + 1, dm1);
-	return snprintf(buf, n, "%s.%sZ", s1, s2+2);
+	// the fraction, in microseconds; a fraction that would round up to a full second stays below it
+	uint32_t usec = (uint32_t)((double)osc_timetag_ntp_getFraction(timetag) / 4294967295.0 * 1000000.0 + 0.5);
+	if(usec > 999999){
+		usec = 999999;
+	}
+	return snprintf(buf, n, "%s.%06uZ", s1, usec);
 
 	/*
 	time_t i;
@@ -464,7 +452,7 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	struct tm t;
 	memset(&t, '\0', sizeof(struct tm));
-	double fsec;
+	double fsec = 0.0;
 	//char s1[];
 	//memset(s1, '\0', sizeof(s1));
     
@@ -481,7 +469,7 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 	//strncat(s1, s, OSC_TIMETAG_MAX_STRING_LENGTH - 1);
 
 	// parse the time
-	strptime(s, "%Y-%m-%dT%H:%M:%S", &t);
+	char *rest = strptime(s, "%Y-%m-%dT%H:%M:%S", &t);
 	//printf("year: %d, month: %d, mday: %d, yday: %d, hour: %d, min: %d, sec: %d\n", t.tm_year, t.tm_mon, t.tm_mday, t.tm_yday, t.tm_hour, t.tm_min, t.tm_sec);
 
 	const DWORD SEC_PER_YEAR = 31536000;
@@ -506,6 +494,16 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 	sec += (t.tm_hour * SEC_PER_HR);
 	sec += (t.tm_min * SEC_PER_MIN);
 	sec += t.tm_sec;
+
+	// the time is local to the UTC offset that may follow the (fractions of) seconds
+	if(rest){
+		int offset_hr = 0, offset_min = 0;
+		rest += strspn(rest, ".0123456789");
+		if((*rest == '+' || *rest == '-') && sscanf(rest + 1, "%2d:%2d", &offset_hr, &offset_min) == 2){
+			uint32_t offset_sec = offset_hr * SEC_PER_HR + offset_min * SEC_PER_MIN;
+			sec = *rest == '+' ? sec - offset_sec : sec + offset_sec;
+		}
+	}
 	timetag->sec = sec;
 
 	//timetag->sec = (t.tm_year * 3.15569e7) + (t.tm_yday * 86400) + (t.tm_hour * 3600) + (t.tm_min * 60) + t.tm_sec;
-- 
2.43.0


From 240419b7a779c16eddc73e3047ac2db41a056652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 005/130] fix: empty alternatives of a pattern list match at
 the end of a segment

---
 osc_match.c | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/osc_match.c b/osc_match.c
index 4b35498..f8726c9 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -28,6 +28,7 @@
 #define OSC_MATCH_RANGE_CAN_BE_NEGATIVE
 
 static int osc_match_range(const char *pattern, const char *address);
+static int osc_match_emptyAlternative(const char *pattern);
 
 #define OSC_MATCH_RANGE_NOMATCH 1
 
@@ -186,7 +187,12 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 			}else if(p == '/'){
 				OSC_MATCH_RETURN_SUCCESS(OSC_MATCH_ADDRESS_COMPLETE);
 			}else{
-				OSC_MATCH_POP();
+				int n = osc_match_emptyAlternative(pattern + sp->p);
+				if(n){
+					sp->p += n;
+				}else{
+					OSC_MATCH_POP();
+				}
 				continue;
 			}
 		}
@@ -206,7 +212,12 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 				}
 				continue;
 			}else{
-				OSC_MATCH_POP();
+				int n = osc_match_emptyAlternative(pattern + sp->p);
+				if(n){
+					sp->p += n;
+				}else{
+					OSC_MATCH_POP();
+				}
 				continue;
 			}
 		}
@@ -321,7 +332,6 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					while(address[aa] != '/' && address[aa] != '\0'){
 						aa++;
 					}
-					aa--;
 					while(aa != here){
 						OSC_MATCH_PUSH(pp, aa);
 						aa--;
@@ -343,6 +353,29 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 	// unreachable
 }
 
+// if pattern starts with a list that has an empty alternative, returns the
+// length of the list, which can then match at the end of a segment
+static int osc_match_emptyAlternative(const char *pattern)
+{
+	if(*pattern != '{'){
+		return 0;
+	}
+	int i = 1, empty = 0;
+	while(pattern[i] != '}'){
+		if(pattern[i] == '/' || pattern[i] == '\0'){
+			return 0;
+		}
+		if(pattern[i] == ',' && (pattern[i - 1] == '{' || pattern[i - 1] == ',')){
+			empty = 1;
+		}
+		i++;
+	}
+	if(pattern[i - 1] == '{' || pattern[i - 1] == ','){
+		empty = 1;
+	}
+	return empty ? i + 1 : 0;
+}
+
 static inline int osc_match_range(const char *pattern, const char *address)
 {
 	const char *p = pattern;
-- 
2.43.0


From 7c01166f8879220be0103f43a8194dda7aa3e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 006/130] fix: unserialized atoms release exactly the strings,
 blobs and bundles they own

---
 osc_atom_array_u.c | 11 +-------
 osc_atom_u.c       | 68 +++++++++++++++++++++-------------------------
 osc_expr.c         |  3 ++
 3 files changed, 35 insertions(+), 47 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index f4f1adc..d97f6a0 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -43,16 +43,7 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar)
 	if(ar){
 		int i;
 		for(i = 0; i < osc_atom_array_u_getLen(ar); i++){
-			t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-			if(a->alloc && a->typetag == 's'){
-				if(a->w.s){
-					osc_mem_free(a->w.s);
-				}
-			}else if(a->typetag == OSC_BUNDLE_TYPETAG){
-				if(a->w.bndl){
-					osc_bundle_u_free(a->w.bndl);
-				}
-			}
+			osc_atom_u_clear(osc_atom_array_u_get(ar, i));
 		}
 		osc_array_free(ar);
 	}
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 3ea7e41..72623a5 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -52,40 +52,29 @@ void osc_atom_u_free(t_osc_atom_u *a)
 	if(!a){
 		return;
 	}
-	if(a->typetag == 's'){
-		if(a->w.s){
-			osc_mem_free(a->w.s);
-		}
-	}else if(a->typetag == OSC_BUNDLE_TYPETAG){
-		//if(a->alloc){ // should always be true
-		//osc_mem_free(osc_bundle_s_getPtr(a->w.bndl));
-			osc_bundle_u_free(a->w.bndl);
-			//}
-    }
-    else if(a->typetag == 'b'){
-        if(a->w.s){
-            osc_mem_free(a->w.b);
-        }
-    }
+	osc_atom_u_clear(a); // frees the value if it belongs to the atom
 	osc_mem_free(a);
 }
 
 void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 {
-	if(!src){
+	if(!src || *dest == src){
 		return;
 	}
 	t_osc_atom_u *aa = *dest;
 	if(!aa){
-		aa = osc_mem_alloc(sizeof(t_osc_atom_u));
+		aa = osc_atom_u_alloc();
+	}else{
+		osc_atom_u_clear(aa);
 	}
 	aa->next = aa->prev = NULL;
 	aa->typetag = src->typetag;
-	aa->alloc = src->alloc;
+	aa->alloc = 0;
 	switch(aa->typetag){
         case 's':
             aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
             strcpy(aa->w.s, src->w.s);
+            aa->alloc = 1;
         break;
         case OSC_BUNDLE_TYPETAG:
             aa->w.bndl = NULL;
@@ -95,8 +84,10 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
     {
         int32_t len = ntoh32(*((int32_t *)(src->w.b)));
         int32_t size = osc_util_getPaddingForNBytes(len);
-        aa->w.s = osc_mem_alloc(size + 4);
+        aa->w.b = osc_mem_alloc(size + 4);
+        memset(aa->w.b, '\0', size + 4);
         memcpy(aa->w.b, src->w.b, len + 4);
+        aa->alloc = 1;
     }
         break;
         default:
@@ -134,7 +125,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
@@ -1115,23 +1106,18 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 	if(!a){
 		return;
 	}
-	if(a->w.s && a->typetag == 's' && a->alloc){
-		if(v){
-			long len = strlen(v) + 1;
-			a->w.s = osc_mem_resize(a->w.s, len);
-			strncpy(a->w.s, v, len);
-		}else{
-			a->w.s = NULL;
-		}
+	char *copy = NULL;
+	if(v){
+		copy = osc_mem_alloc(strlen(v) + 1);
+		strcpy(copy, v);
+	}
+	osc_atom_u_clear(a); // after copying: v may be the string the atom holds
+	if(copy){
+		a->w.s = copy;
+		a->typetag = 's';
+		a->alloc = 1;
 	}else{
-		if(v){
-			a->w.s = osc_mem_alloc(strlen(v) + 1);
-			strcpy(a->w.s, v);
-			a->typetag = 's';
-			a->alloc = 1;
-		}else{
-			a->w.s = NULL;
-		}
+		a->typetag = 'N';
 	}
 }
 
@@ -1210,6 +1196,12 @@ void osc_atom_u_setBndl_s(t_osc_atom_u *a, long len, char *ptr)
 
 void osc_atom_u_setBndl_u(t_osc_atom_u *a, t_osc_bndl_u *b)
 {
+	if(!a){
+		return;
+	}
+	if(a->typetag != OSC_BUNDLE_TYPETAG || a->w.bndl != b){
+		osc_atom_u_clear(a);
+	}
 	a->w.bndl = b;
 	a->typetag = OSC_BUNDLE_TYPETAG;
 }
@@ -1229,7 +1221,6 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	if(!a){
 		return;
 	}
-	osc_atom_u_clear(a);
 	int32_t l = ntoh32(*((int32_t *)blob));
 	int buflen = l + 1;
 	while(buflen % 4){
@@ -1238,8 +1229,10 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	char *copy = osc_mem_alloc(buflen + 4);
 	memset(copy, '\0', buflen + 4);
 	memcpy(copy, blob, l + 4);
+	osc_atom_u_clear(a); // after copying: blob may be the one the atom holds
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
@@ -1255,6 +1248,7 @@ void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
 void osc_atom_u_setRec(t_osc_atom_u *a, void *r)
 {
 	if(a){
+		osc_atom_u_clear(a);
 		a->w.rec = r;
 		a->typetag = 'r';
 	}
diff --git a/osc_expr.c b/osc_expr.c
index a65e306..2ec2588 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5877,6 +5877,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 					return 1;
 				}
 				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
+				osc_mem_free(b);
 			}else{
 				char *blob = osc_mem_alloc(n + 4);
 				for(int i = 0; i < n; i++){
@@ -5885,6 +5886,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				*((int32_t *)blob) = hton32(n);
 				*out = osc_atom_array_u_alloc(1);
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), blob);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}
 		}else{
 			int n = osc_atom_array_u_getLen(*argv);
@@ -6021,6 +6023,7 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
 	osc_atom_u_setBlobPtr(dest, blob);
+	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
-- 
2.43.0


From b34ae1c80bb29f95f003dd559171d47725d80bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 007/130] fix: message and bundle lists keep count, links and
 ownership when messages and arguments are replaced or removed

---
 osc_bundle_u.c  | 14 +++++++++-----
 osc_message_u.c | 25 ++++++++++++++-----------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 9fdbae9..38b6ab9 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -264,7 +264,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -277,13 +276,16 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
             t_osc_msg_u *m = bndl->msghead;
             while(m){
                 t_osc_msg_u *next = m->next;
-                if(!strcmp(address, osc_message_u_getAddress(m))){
+                const char * const messageaddr = osc_message_u_getAddress(m);
+                if(m == msg){
+                    return OSC_ERR_NONE;
+                }
+                if(messageaddr && !strcmp(address, messageaddr)){
                     // later maybe try to maintain memmory location if the value is a bundle?
                     // in that case we might not clear first, but copy the new value into the bundle at this message
                     t_osc_msg_u * next = m->next;
                     t_osc_msg_u * prev = m->prev;
                     
-                    osc_message_u_clearArgs(m);
                     osc_message_u_deepCopy(&m, msg);
                     
                     m->next = next;
@@ -411,6 +413,8 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	m->next = m->prev = NULL;
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
@@ -420,10 +424,10 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            const char * const messageaddr = osc_message_u_getAddress(m);
+            if(messageaddr && !strcmp(address, messageaddr)){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
diff --git a/osc_message_u.c b/osc_message_u.c
index 3730232..f3d1b95 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -109,10 +109,15 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 	if(!(*dest)){
 		*dest = osc_message_u_alloc();
 	}
+	if(*dest == src){
+		return OSC_ERR_NONE;
+	}
+	osc_message_u_clearArgs(*dest);
 	(*dest)->size = src->size;
-	(*dest)->argc = 0;
-	(*dest)->arghead = NULL;
-	(*dest)->argtail = NULL;
+	if((*dest)->address){
+		osc_mem_free((*dest)->address);
+		(*dest)->address = NULL;
+	}
 	if(src->address){
 		char *address = NULL;
 		osc_util_strdup(&address, src->address);
@@ -172,6 +177,9 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		return OSC_ERR_INVAL;
 	}
 	if(!address){
+		if(m->address){
+			osc_mem_free(m->address);
+		}
 		m->address = NULL;
 		return OSC_ERR_NONE;
 	}
@@ -280,6 +288,7 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
@@ -596,10 +605,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -765,10 +771,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From a4dde65d352c988a209d9b15d28d935fc477826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 008/130] fix: blob length and blob copies of unserialized
 atoms stay inside the value

---
 osc_atom_u.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 72623a5..c03dc7d 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -635,7 +635,7 @@ uint64_t osc_atom_u_getUInt64(t_osc_atom_u *a){
 			char *blob = a->w.b;
 			int32_t len = ntoh32(*((int32_t *)blob));
 			if(len == 8){
-				return ntoh32(*((uint32_t *)(blob + 4)));
+				return ntoh64(*((uint64_t *)(blob + 4)));
 			}
 		}
 	}
@@ -903,7 +903,7 @@ int32_t osc_atom_u_getBlobLen(t_osc_atom_u *a)
 	case 's':
 		return strlen(a->w.s);
 	default:
-		return osc_sizeof(osc_atom_u_getTypetag(a), a->w.s);
+		return osc_atom_u_sizeof(a);
 	}
 }
 
@@ -935,7 +935,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->w.b, *buflen);
+		memcpy(*blob, a->w.b, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
 		break;
 	case 'c':
 	case 'C':
@@ -955,7 +955,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	case 'h':
 	case 'H':
 		{
-			int64_t i = a->w.i;
+			int64_t i = a->w.h;
 			*((int32_t *)(*blob)) = hton32(8);
 			*((int64_t *)((*blob) + 4)) = hton64(i);
 		}
@@ -978,7 +978,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		{
 			*((int32_t *)(*blob)) = hton32(*buflen - 4);
 			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen, &p);
+			osc_atom_u_getString(a, *buflen - 4, &p);
 		}
 		break;
 	case OSC_BUNDLE_TYPETAG:
@@ -1399,6 +1399,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 				return osc_bundle_u_nserialize(buf + 4, len, a->w.bndl) + 4;
 			}
 		}
+		break;
 	case OSC_TIMETAG_TYPETAG:
 		if(!buf){
 			return OSC_TIMETAG_SIZEOF;
-- 
2.43.0


From ae5d2a27af865689124a035c9dc22b3d46eaac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 009/130] fix: serialized atoms convert narrow integers, time
 tags and blobs like unserialized ones

---
 osc_atom_s.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 10404af..731c095 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -115,6 +115,8 @@ float osc_atom_s_getFloat(t_osc_atom_s *a)
 		return 0.f;
 	case 'N': // NULL
 		return 0.f;
+	case OSC_TIMETAG_TYPETAG:
+		return (float)osc_timetag_timetagToFloat(osc_atom_s_getTimetag(a));
 	}
 	return 0.f;
 }
@@ -158,6 +160,8 @@ double osc_atom_s_getDouble(t_osc_atom_s *a)
 		return 0.;
 	case 'N': // NULL
 		return 0.;
+	case OSC_TIMETAG_TYPETAG:
+		return osc_timetag_timetagToFloat(osc_atom_s_getTimetag(a));
 	}
 	return 0.;
 }
@@ -230,7 +234,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int32_t)ntoh32(*((int32_t *)(a->data)));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +245,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -325,7 +329,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
@@ -363,10 +367,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
@@ -700,13 +704,18 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 		*buflen += 4;
 		*blob = osc_mem_alloc(*buflen);
 	}
+	if(bloblen < 0 || *buflen < bloblen + 4){
+		return OSC_ERR_INVAL;
+	}
+	memset(*blob, '\0', *buflen);
 	switch(osc_atom_s_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->data, *buflen);
+	case OSC_BUNDLE_TYPETAG: // the data starts with its length
+		memcpy(*blob, a->data, ntoh32(*((int32_t *)a->data)) + 4);
 		break;
 	default:
 		*((int32_t *)(*blob)) = hton32(bloblen);
-		memcpy((*blob) + 4, a->data, *buflen);
+		memcpy((*blob) + 4, a->data, bloblen);
 	}
 	return OSC_ERR_NONE;
 }
-- 
2.43.0


From cbf257abc5b481fda3503c2ce5563fcb69ccd927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 010/130] fix: array copy-into grows the destination and joined
 strings count their separators

---
 osc_array.c        | 14 ++++++++------
 osc_atom_array_u.c |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..f5fe2cf 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -72,7 +72,7 @@ void *osc_array_get(t_osc_array *ar, long idx){
 	if(!ar){
 		return NULL;
 	}
-	if(ar->len <= idx){
+	if(idx < 0 || ar->len <= idx){
 		return NULL;
 	}
 	return ar->ar + (idx * ar->membersize);
@@ -105,14 +105,16 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
 	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
+		if((*dest)->membersize != src->membersize){
+			return OSC_ERR_INVAL;
+		}
+		if((*dest)->len < destlen){
+			t_osc_err e = osc_array_resize(*dest, destlen);
+			if(e){
+				return e;
 			}
 		}
 	}
diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index d97f6a0..ee31899 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -156,9 +156,9 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 	int i;
 	for(i = 0; i < arlen; i++){
 		int n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i));
-		if((buflen - (ptr - *out)) < n){
+		if((buflen - (ptr - *out)) < n + seplen + 1){
 			long offset = ptr - *out;
-			int nbytes = n * (arlen - i) + 1; // assume the rest of the atoms are the same size
+			long nbytes = (long)(n + seplen) * (arlen - i) + 1; // assume the rest of the atoms are the same size
 			char *tmp = osc_mem_resize(*out, buflen + nbytes);
 			if(tmp){
 				*out = tmp;
-- 
2.43.0


From 4ef4cdf0afd60576c39bf7700c5663b265a0cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 011/130] fix: empty serialized bundles have a full initialized
 header and bound addresses are found

---
 osc_bundle_s.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 00dd348..89187c0 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -55,7 +55,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -197,7 +197,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
@@ -341,6 +341,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		*alloc = 1;
 	}
 	osc_bundle_s_setBundleID(*bndl);
+	memset(*bndl + OSC_IDENTIFIER_SIZE, '\0', OSC_TIMETAG_SIZEOF);
 	*((int32_t *)((*bndl) + OSC_HEADER_SIZE)) = hton32(len);
 	memcpy((*bndl) + OSC_HEADER_SIZE + 4, msg, len);
 	return OSC_ERR_NONE;
@@ -348,7 +349,10 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 
 t_osc_err osc_bundle_s_removeMessage(char *pattern, long *len, char *ptr, int fullmatch)
 {
-	char tmp[*len];
+	char *tmp = osc_mem_alloc(*len);
+	if(!tmp){
+		return OSC_ERR_OUTOFMEM;
+	}
 	memset(tmp, '\0', *len);
 	char *p1 = tmp, *p2 = ptr + OSC_HEADER_SIZE, *p3 = ptr + OSC_HEADER_SIZE;
 	memcpy(p1, ptr, OSC_HEADER_SIZE);
@@ -389,6 +393,7 @@ t_osc_err osc_bundle_s_removeMessage(char *pattern, long *len, char *ptr, int fu
 	}
 	memcpy(ptr, tmp, p1 - tmp);
 	*len = p1 - tmp;
+	osc_mem_free(tmp);
 	return OSC_ERR_NONE;
 }
 
@@ -500,7 +505,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
@@ -571,6 +576,7 @@ t_osc_err osc_bundle_s_explode(t_osc_bndl_s **dest, t_osc_bndl_s *src, int maxle
 	t_osc_bndl_u *bu = osc_bundle_s_deserialize(osc_bundle_s_getLen(src), osc_bundle_s_getPtr(src));
 	t_osc_err ret = osc_bundle_u_explode(&ex, bu, maxlevel, sep);
 	if(ret){
+		osc_bundle_u_free(bu);
 		return ret;
 	}
 	if(!(*dest)){
@@ -703,6 +709,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+		memset(bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(bndl_out);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
@@ -760,6 +767,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
+		memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
@@ -805,6 +813,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
+		memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
-- 
2.43.0


From a4dcabd9441d2c4413e0b6457b8d504aeab4b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 012/130] fix: flatten does not follow freed arguments and
 explode ends with any separator

---
 osc_bundle_u.c  |  7 +++----
 osc_message_u.c | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 38b6ab9..ff400b2 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -454,9 +454,9 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		t_osc_msg_u *mcopy = NULL;
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
-			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
-			while(osc_msg_it_u_hasNext(mit)){
-				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+			t_osc_atom_u *next = NULL;
+			for(t_osc_atom_u *a = mcopy->arghead; a; a = next){
+				next = a->next;
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
@@ -493,7 +493,6 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					osc_atom_u_free(a);
 				}
 			}
-			osc_msg_it_u_destroy(mit);
 		}
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
diff --git a/osc_message_u.c b/osc_message_u.c
index f3d1b95..c57f3a5 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -853,15 +853,16 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 		return OSC_ERR_NONE;
 	}
 	char *s = sep && strlen(sep) > 0 ? sep : "/";
+	int slen = strlen(s);
 	char *a = osc_message_u_getAddress(msg);
 	int alen = strlen(a);
 	int i = 0;
-	if(a[i] == *s){
-		i = 1;
+	if(!strncmp(a + i, s, slen)){
+		i = slen;
 	}
 	while(i < alen){
 		i++;
-		if(a[i] == *s){
+		if(!strncmp(a + i, s, slen)){
 			break;
 		}
 	}
@@ -908,11 +909,11 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
-				if(a[i + 1] == '/'){
-					strncpy(a2, a + i + 1, (alen - i));
+				if(a[i + slen] == '/'){
+					strcpy(a2, a + i + slen);
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strcpy(a2 + 1, a + i + slen);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
@@ -943,11 +944,11 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
-				if(a[i + 1] == '/'){
-					strncpy(a2, a + i + 1, (alen - i));
+				if(a[i + slen] == '/'){
+					strcpy(a2, a + i + slen);
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strcpy(a2 + 1, a + i + slen);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
-- 
2.43.0


From 75be9dc2154121af962956b81833157a705a009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 013/130] fix: an unserialized address is bound when any
 matching message has arguments

---
 osc_bundle_u.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index ff400b2..ce94f0e 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -181,8 +181,10 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }
-        *res = (osc_message_u_getArgCount(m) > 0);
-        break;
+        if(osc_message_u_getArgCount(m) > 0){
+            *res = 1;
+            break;
+        }
     }
     osc_bndl_it_u_destroy(it);
     return OSC_ERR_NONE;
@@ -228,6 +230,9 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 			matchbuflen += 16;
 		}
 		t_osc_msg_u *current_message = osc_bndl_it_u_next(it);
+		if(!osc_message_u_getAddress(current_message)){
+			continue;
+		}
 		int po, ao;
 		int r = osc_match(address, osc_message_u_getAddress(current_message), &po, &ao);
 		if(fullmatch){
-- 
2.43.0


From a6ef9322cef1701bf2b1e80f4928cec5e470b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 014/130] fix: cached offsets of a serialized message are
 dropped when it wraps other bytes

---
 osc_bundle_iterator_s.c |  7 +++++++
 osc_message_s.c         | 30 ++++++++++++++++++++++++++++--
 osc_message_s.h         |  7 +++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_iterator_s.c b/osc_bundle_iterator_s.c
index 06d392b..072a9d9 100644
--- a/osc_bundle_iterator_s.c
+++ b/osc_bundle_iterator_s.c
@@ -40,18 +40,23 @@ t_osc_bndl_it_s *osc_bundle_iterator_s_getIterator(long len, char *ptr)
 	}
 	it->len = len;
 	it->bndl = ptr;
+	osc_message_s_initMsg(&(it->msg));
 	osc_bundle_iterator_s_resetIterator(it);
 	return it;
 }
 
 void osc_bundle_iterator_s_destroyIterator(t_osc_bndl_it_s *it)
 {
+	if(it){
+		osc_message_s_clearCache(&(it->msg));
+	}
 	osc_mem_free(it);
 }
 
 void osc_bundle_iterator_s_resetIterator(t_osc_bndl_it_s *it)
 {
 	it->msgptr = it->bndl;
+	osc_message_s_clearCache(&(it->msg));
 	osc_message_s_initMsg(&(it->msg));
 	//osc_message_s_wrap(&(it->msg), it->bndl + OSC_HEADER_SIZE);
 }
@@ -70,6 +75,7 @@ t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 	if(it->msgptr - it->bndl < it->len){
 		it->msgptr += osc_message_s_getSize(&(it->msg)) + 4;
 	}else{
+		osc_message_s_clearCache(&(it->msg));
 		osc_message_s_initMsg(&(it->msg));
 		return &(it->msg);
 	}
@@ -80,6 +86,7 @@ t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 		}
 		return &(it->msg);
 	}else{
+		osc_message_s_clearCache(&(it->msg));
 		osc_message_s_initMsg(&(it->msg));
 		return &(it->msg);
 	}
diff --git a/osc_message_s.c b/osc_message_s.c
index 296f84d..b055633 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -46,7 +46,7 @@ size_t osc_message_s_getStructSize(void)
 	return sizeof(t_osc_msg_s);
 }
 
-void osc_message_s_free(t_osc_msg_s *m)
+void osc_message_s_clearCache(t_osc_msg_s *m)
 {
 	if(!m){
 		return;
@@ -57,6 +57,18 @@ void osc_message_s_free(t_osc_msg_s *m)
 	if(m->data_size_cache){
 		osc_mem_free(m->data_size_cache);
 	}
+	m->data_offset_cache = NULL;
+	m->data_size_cache = NULL;
+	m->cache_buf_size = 0;
+	m->cache_size = 0;
+}
+
+void osc_message_s_free(t_osc_msg_s *m)
+{
+	if(!m){
+		return;
+	}
+	osc_message_s_clearCache(m);
 	osc_mem_free(m);
 }
 
@@ -84,7 +96,16 @@ void osc_message_s_copy(t_osc_msg_s **dest, t_osc_msg_s *src)
 	if(!(*dest)){
 		*dest = osc_message_s_alloc();
 	}
+	if(*dest == src){
+		return;
+	}
+	osc_message_s_clearCache(*dest);
 	**dest = *src;
+	// the cached offsets belong to src
+	(*dest)->data_offset_cache = NULL;
+	(*dest)->data_size_cache = NULL;
+	(*dest)->cache_buf_size = 0;
+	(*dest)->cache_size = 0;
 }
 
 t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
@@ -92,6 +113,7 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 	if(!m || !bytes){
 		return OSC_ERR_NULLPTR;
 	}
+	osc_message_s_clearCache(m);
 	int32_t len = ntoh32(*((int32_t *)bytes));
 	m->size = bytes;
 	char *address = m->address = bytes + 4;
@@ -112,6 +134,7 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 	char *tt = m->typetags = address + osc_util_getPaddedStringLen(address);
 	if((tt - bytes) > len){
 		m->typetags = NULL;
+		m->data = NULL;
 		// this isn't really cool--if there is no data, there should at least be a 
 		// comma and 3 NULLs.  we'll let it go anyway...
 		return OSC_ERR_NONE;
@@ -151,7 +174,9 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	if(src->typetags){
+		memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	}
 	return newlen;
 }
 
@@ -255,6 +280,7 @@ void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 t_osc_err osc_message_s_cacheDataOffsets(t_osc_msg_s *m)
 {
 	int n = osc_message_s_getArgCount(m);
+	osc_message_s_clearCache(m);
 	m->data_offset_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->data_size_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->cache_buf_size = n;
diff --git a/osc_message_s.h b/osc_message_s.h
index 794e316..69737f6 100644
--- a/osc_message_s.h
+++ b/osc_message_s.h
@@ -74,6 +74,13 @@ size_t osc_message_s_getStructSize(void);
    @param m The OSC message to be freed
  */
 void osc_message_s_free(t_osc_msg_s *m);
+
+/**
+ * Discard the offsets cached by #osc_message_s_cacheDataOffsets.
+ *
+ * @param m The message whose cache should be cleared
+ */
+void osc_message_s_clearCache(t_osc_msg_s *m);
 void osc_message_s_deepFree(t_osc_msg_s *m);
 
 /**
-- 
2.43.0


From 4ef692a518214231f366c83ed81df9712c803b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 015/130] fix: cached offsets of a serialized message are
 dropped when it wraps other bytes

---
 osc_bundle_iterator_s.c | 3 +--
 osc_message_s.c         | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_iterator_s.c b/osc_bundle_iterator_s.c
index 072a9d9..097a322 100644
--- a/osc_bundle_iterator_s.c
+++ b/osc_bundle_iterator_s.c
@@ -64,6 +64,7 @@ void osc_bundle_iterator_s_resetIterator(t_osc_bndl_it_s *it)
 t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 {
 	t_osc_err e;
+	osc_message_s_clearCache(&(it->msg));
 	if(it->msgptr == it->bndl){
 		it->msgptr += OSC_HEADER_SIZE;
 		e = osc_message_s_wrap(&(it->msg), it->msgptr);
@@ -75,7 +76,6 @@ t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 	if(it->msgptr - it->bndl < it->len){
 		it->msgptr += osc_message_s_getSize(&(it->msg)) + 4;
 	}else{
-		osc_message_s_clearCache(&(it->msg));
 		osc_message_s_initMsg(&(it->msg));
 		return &(it->msg);
 	}
@@ -86,7 +86,6 @@ t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 		}
 		return &(it->msg);
 	}else{
-		osc_message_s_clearCache(&(it->msg));
 		osc_message_s_initMsg(&(it->msg));
 		return &(it->msg);
 	}
diff --git a/osc_message_s.c b/osc_message_s.c
index b055633..af82b4b 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -113,7 +113,11 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 	if(!m || !bytes){
 		return OSC_ERR_NULLPTR;
 	}
-	osc_message_s_clearCache(m);
+	// m may be uninitialized memory
+	m->data_offset_cache = NULL;
+	m->data_size_cache = NULL;
+	m->cache_buf_size = 0;
+	m->cache_size = 0;
 	int32_t len = ntoh32(*((int32_t *)bytes));
 	m->size = bytes;
 	char *address = m->address = bytes + 4;
-- 
2.43.0


From d6985c50fab808a38ea8f754b7891f560db5785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 016/130] fix: a safe store of a duplicate key releases its
 element

---
 osc_hashtab.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..99f4e8d 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -87,7 +87,7 @@ static uint32_t osc_hashtab_getPrime(uint32_t n){
 			return primes[i];
 		}
 	}
-	return primes[i];
+	return primes[i - 1];
 }
 
 static void osc_hashtab_rehash(t_osc_hashtab *ht)
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From 15b7917af1ea822731a59d8128c41606eebb41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 017/130] fix: vtable selectors stay registered when entries
 move or are renamed, and the table is freed

---
 osc_vtable.c | 51 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 050333b..b9d8d19 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -65,6 +65,7 @@ void osc_vtable_free(t_osc_vtable *vtab){
 	if(vtab->hashtab){
 		osc_hashtab_destroy(vtab->hashtab);
 	}
+	osc_mem_free(vtab);
 }
 
 void osc_vtable_setDelegationMethod(t_osc_vtable *vtab,
@@ -80,11 +81,8 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 			      t_osc_vtable_method method,
 			      void *context)
 {
-	if(vtab->num_entries >= vtab->num_slots){
-		vtab->entries = osc_mem_resize(vtab->entries, ++(vtab->num_slots) * sizeof(t_osc_vtable_entry));
-		if(!(vtab->entries)){
-			return OSC_ERR_OUTOFMEM;
-		}
+	if(!selector){
+		return OSC_ERR_NULLPTR;
 	}
 	t_osc_vtable_entry *entry = osc_vtable_getEntryBySelector(vtab, selector);
 	if(entry){
@@ -93,15 +91,28 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 		entry->context = context;
 		return OSC_ERR_NONE;
 	}
+	if(vtab->num_entries >= vtab->num_slots){
+		t_osc_vtable_entry *entries = osc_mem_resize(vtab->entries, (vtab->num_slots + 1) * sizeof(t_osc_vtable_entry));
+		if(!entries){
+			return OSC_ERR_OUTOFMEM;
+		}
+		vtab->entries = entries;
+		vtab->num_slots++;
+		// the entries may have moved
+		int i;
+		for(i = 0; i < vtab->num_entries; i++){
+			t_osc_vtable_entry *e = vtab->entries + i;
+			osc_hashtab_store(vtab->hashtab, strlen(e->selector), e->selector, e);
+		}
+	}
 
 	entry = &(vtab->entries[vtab->num_entries]);
 	vtab->num_entries++;
-	if(selector){
-		int len = strlen(selector);
-		entry->selector = osc_mem_alloc(len + 1);
-		strncpy(entry->selector, selector, len);
-		entry->selector[len] = '\0';
-	}
+	int len = strlen(selector);
+	entry->selector = osc_mem_alloc(len + 1);
+	strncpy(entry->selector, selector, len);
+	entry->selector[len] = '\0';
+	entry->method_list = NULL;
 	entry->method = method;
 	entry->context = context;
 	if(!(vtab->hashtab)){
@@ -177,14 +188,17 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	if(!e){
 		return OSC_ERR_INVAL;
 	}
-	int oldlen = strlen(old_selector);
 	int newlen = strlen(new_selector);
-	if(newlen > oldlen){
-		e->selector = osc_mem_resize(e->selector, newlen + 1);
+	char *selector = osc_mem_alloc(newlen + 1);
+	if(!selector){
+		return OSC_ERR_OUTOFMEM;
 	}
-	strncpy(e->selector, new_selector, newlen + 1);
-	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)e);
+	strncpy(selector, new_selector, newlen + 1);
+	osc_hashtab_remove(vtab->hashtab, strlen(old_selector), old_selector, NULL);
+	osc_mem_free(e->selector);
+	e->selector = selector;
+	// the hash table doesn't copy the key, so it gets the one that belongs to the entry
+	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)e);
 	return OSC_ERR_NONE;
 }
 
@@ -214,6 +228,9 @@ int osc_vtable_call(t_osc_vtable *vtab,
 }
 
 int osc_vtable_delegate(t_osc_vtable *vtab, long bndllen, char *bndl, t_osc_bndl_s *unmatched){
+	if(!(vtab->delegation_method)){
+		return 1;
+	}
 	vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
 	return 0;
 }
-- 
2.43.0


From acbeb1d4deeca73114fbdb0d788b8cb154aadf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 018/130] fix: stripped partial matches keep the unmatched rest
 of the message address

---
 osc_dispatch.c | 8 ++++++--
 osc_query.c    | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 21ad226..8bd1aac 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -110,12 +110,16 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 	}else if(po > 0 && ((osc_message_s_getAddress(msg)[po] == '/') || star_at_end == 1)){
 		// partial match
 		if(strip_matched_portion_of_address){
-			char buf[osc_message_s_getSize(msg) + 4];
+			char *buf = osc_mem_alloc(osc_message_s_getSize(msg) + 4);
+			if(!buf){
+				return 0;
+			}
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - ao, address + ao);
+			osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
+			osc_mem_free(buf);
 			//int msglen = osc_message_s_getLen(msg) + 4;
 			//char buf[msglen];
 
diff --git a/osc_query.c b/osc_query.c
index c149d31..438fbc3 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -115,7 +115,10 @@ int osc_query_select_impl(int nselectors,
 			}else if(po > 0 && ((osc_message_s_getAddress(msg)[po] == '/') || star_at_end == 1)){
 				// partial match
 				if(strip_matched_portion_of_address){
-					char buf[osc_message_s_getSize(msg) + 4];
+					char *buf = osc_mem_alloc(osc_message_s_getSize(msg) + 4);
+					if(!buf){
+						continue;
+					}
 					char *address = osc_message_s_getAddress(msg);
 					osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
 					char msg_s[osc_message_s_getStructSize()];
@@ -124,6 +127,7 @@ int osc_query_select_impl(int nselectors,
 					osc_rset_addPartialMatch(*rset,
 								 rec_selector ? rec_selector : selector,
 								 (t_osc_msg_s *)msg_s);
+					osc_mem_free(buf);
 				}else{
 					//osc_bundle_s_appendMessage_b(partial_match, msg);
 					osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
-- 
2.43.0


From 9340d47072c3d586fe5260f3fdb57a405b980bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 019/130] fix: a message appended to a message list is linked
 backwards too

---
 osc_message_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_message_u.c b/osc_message_u.c
index c57f3a5..a934f2a 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -161,6 +161,9 @@ void osc_message_u_append(t_osc_msg_u *m1, t_osc_msg_u *m2)
 		m1 = m1->next;
 	}
 	m1->next = m2;
+	if(m2){
+		m2->prev = m1;
+	}
 }
 
 char *osc_message_u_getAddress(t_osc_msg_u *m)
-- 
2.43.0


From 2d419ef3540c1d5bb8b44e2b7cea42a6931e81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:02 +0000
Subject: [PATCH 020/130] fix: an argument appended to an argument list is
 linked backwards too

---
 osc_atom_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index c03dc7d..e0fd70e 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -140,6 +140,9 @@ void osc_atom_u_append(t_osc_atom_u *a1, t_osc_atom_u *a2)
 		a1 = a1->next;
 	}
 	a1->next = a2;
+	if(a2){
+		a2->prev = a1;
+	}
 }
 
 char osc_atom_u_getTypetag(t_osc_atom_u *a)
-- 
2.43.0


From 97702e58b15431c11697cf4fcb3e9c6b8e57cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:25 +0000
Subject: [PATCH 021/130] fix: quoted strings in bundle text are released and
 must be terminated; a syntax error frees the parsed values

---
 osc_parser.y  | 18 ++++++++++++++++++
 osc_scanner.l | 46 ++++++++++++++++++----------------------------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/osc_parser.y b/osc_parser.y
index 78e80de..6a047fd 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -121,6 +121,7 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
+	osc_mem_free(buf); // left over from an unterminated string
 	/*
 	if(!ret){
 		*bndl = bl->bndl;
@@ -175,6 +176,23 @@ void yyerror (YYLTYPE *yylloc, t_osc_bndl_u **bndl, void *scanner, long *buflen,
 %type <atom>data datum list subbundle 
 %token <atom>OSCADDRESS OSCVALUE 
 
+%destructor {
+	t_osc_atom_u *a = $$;
+	while(a){
+		t_osc_atom_u *next = a->next;
+		osc_atom_u_free(a);
+		a = next;
+	}
+} <atom>
+%destructor {
+	t_osc_msg_u *m = $$;
+	while(m){
+		t_osc_msg_u *next = m->next;
+		osc_message_u_free(m);
+		m = next;
+	}
+} <message>
+
 %%
 
 bundle: 
diff --git a/osc_scanner.l b/osc_scanner.l
index 78d7a87..f32af35 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -70,40 +70,30 @@ quoted_string [^\"\\]
 }
 
 <quote>{quoted_string}+ {
-	if(*buf){
-		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
-		*buflen += yyleng + 1;
-		strcat(*buf, yytext);
-	}else{
-		yylval->atom = osc_atom_u_allocWithString(yytext);
-		return OSCVALUE;
-	}
+	*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
+	memcpy(*buf + *buflen, yytext, yyleng + 1);
+	*buflen += yyleng;
 }
 
 <quote>\" {
 	BEGIN(0);
-	if(*buf){
-		yylval->atom = osc_atom_u_allocWithString(*buf);
-		*buf = NULL;
-		*buflen = 0;
-		return OSCVALUE;
-	}
+	yylval->atom = osc_atom_u_allocWithString(*buf ? *buf : "");
+	osc_mem_free(*buf);
+	*buf = NULL;
+	*buflen = 0;
+	return OSCVALUE;
 }
 
-<quote>{quoted_string}*\\. {
-	if(*buf){
-		*buf = osc_mem_resize(*buf, *buflen + yyleng);
-		memcpy(*buf + *buflen, yytext, yyleng - 1);
-		*buflen += yyleng - 1;
-		(*buf)[*buflen - 1] = yytext[yyleng - 1];
-		(*buf)[*buflen] = '\0';
-	}else{
-		*buf = osc_mem_alloc(yyleng);
-		memcpy(*buf, yytext, yyleng - 1);
-		*buflen = yyleng - 1;
-		(*buf)[*buflen - 1] = yytext[yyleng - 1];
-		(*buf)[*buflen] = '\0';
-	}
+<quote>\\(.|\n) {
+	*buf = osc_mem_resize(*buf, *buflen + 2);
+	(*buf)[(*buflen)++] = yytext[1];
+	(*buf)[*buflen] = '\0';
+}
+
+<quote><<EOF>> {
+	// unterminated string
+	BEGIN(0);
+	return '\"';
 }
 
 \"\" {
-- 
2.43.0


From b3be57cfc67f74dd6174237255ae48daa5df58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 022/130] fix: a bundle text with a syntax error leaves no
 bundle behind

---
 osc_parser.y | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_parser.y b/osc_parser.y
index 6a047fd..25a733c 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -118,7 +118,8 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	osc_scanner_set_out(NULL, scanner);
 	long buflen = 0;
 	char *buf = NULL;
-	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
+	t_osc_bndl_u *b = NULL;
+	int ret = osc_parser_parse(&b, scanner, &buflen, &buf);
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
 	osc_mem_free(buf); // left over from an unterminated string
@@ -131,8 +132,11 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	}
 	*/
 	if(ret){
+		// a complete bundle followed by something unexpected
+		osc_bundle_u_free(b);
 		return OSC_ERR_PARSER;
 	}
+	*bndl = b;
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 38297a4faffd2934ecf33c10a5c4bd1298faea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:39 +0000
Subject: [PATCH 023/130] fix: bounded bundle serialization into a buffer too
 small for the header releases its iterator

---
 osc_bundle_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index ce94f0e..a4b3c4e 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -635,6 +635,7 @@ size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 		}
 	}else{
 		if(n < OSC_HEADER_SIZE){
+			osc_bndl_it_u_destroy(it);
 			return 0;
 		}
 		memcpy(buf, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
-- 
2.43.0


From b6efc5df6c4b7ea94893135f317b09a153544a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 024/130] fix: inserting a string by pointer takes the pointer
 like append and prepend do

---
 osc_message_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index a934f2a..fb1ddaf 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -766,7 +766,7 @@ t_osc_atom_u *osc_message_u_insertDouble(t_osc_msg_u *m, double v, int pos)
 t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	osc_atom_u_setString(a, v);
+	osc_atom_u_setStringPtr(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From 14a25953ed42ef5adedd75cab57835fd6bbfc076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 025/130] fix: dispatching with an empty table does not declare
 zero-length arrays

---
 osc_dispatch.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 8bd1aac..a54c6c5 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -203,8 +203,8 @@ t_osc_err osc_dispatch(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	t_osc_bndl_s *partial_matches[nentries + 1]; // never of length 0
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
@@ -258,8 +258,8 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	t_osc_bndl_s *partial_matches[nentries + 1]; // never of length 0
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
-- 
2.43.0


From 0b92d2c0d7ca70208e5c9dfb8132f23822945cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 026/130] fix: resizing an array to no elements succeeds

---
 osc_array.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index f5fe2cf..c46a1de 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -127,8 +127,10 @@ t_osc_err osc_array_resize(t_osc_array *array, int newlen)
 	if(!array){
 		return OSC_ERR_INVAL;
 	}
-	array->ar = osc_mem_resize(array->ar, newlen * array->membersize);
-	if(array->ar){
+	void *ar = osc_mem_resize(array->ar, newlen * array->membersize);
+	// resizing a block to 0 bytes may return NULL
+	if(ar || newlen * array->membersize == 0){
+		array->ar = ar;
 #ifdef OSC_ARRAY_CLEAR_ON_ALLOC
 		if(newlen > array->len){
 			memset(array->ar + (array->len * array->membersize), '\0', (newlen - array->len) * array->membersize);
@@ -137,7 +139,6 @@ t_osc_err osc_array_resize(t_osc_array *array, int newlen)
 		array->len = newlen;
 		return OSC_ERR_NONE;
 	}else{
-		array->len = 0;
 		return OSC_ERR_OUTOFMEM;
 	}
 }
-- 
2.43.0


From 59a21588399d5eb2b553136757027c43626f3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 027/130] fix: the fraction of the current time does not
 overflow at the end of a second

---
 osc_timetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 12cbeaf..3014b42 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -611,7 +611,7 @@ t_osc_timetag osc_timetag_now(void)
 		//0 + //(uint32_t)(60 * tz.tz_minuteswest) +
 		//(uint32_t)(tz.tz_dsttime == 1 ? 3600 : 0);
     
-	n.frac_sec = (uint32_t)(tv.tv_usec * 4295); // 2^32-1 / 1.0e6
+	n.frac_sec = (uint32_t)(tv.tv_usec * 4294.967296); // 2^32 / 1.0e6
 
 	return *((t_osc_timetag *)(&n));
 #elif OSC_TIMETAG_FORMAT == OSC_TIMETAG_PTP
-- 
2.43.0


From aa57d4b8790ae3743a14762d22f66623344c7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:18 +0000
Subject: [PATCH 028/130] fix: subtracting integers gives the wider operand's
 type, like the other operators

---
 osc_expr.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2ec2588..4a69e82 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2432,7 +2432,34 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
 		}else{
-			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
+			switch(tt){
+			case 'I':
+				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) - osc_atom_u_getUInt32(f2));
+				break;
+			case 'h':
+				osc_atom_u_setInt64(*result, (int64_t)((uint64_t)osc_atom_u_getInt64(f1) - (uint64_t)osc_atom_u_getInt64(f2)));
+				break;
+			case 'H':
+				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) - osc_atom_u_getUInt64(f2));
+				break;
+			case 'u':
+				osc_atom_u_setInt16(*result, osc_atom_u_getInt16(f1) - osc_atom_u_getInt16(f2));
+				break;
+			case 'U':
+				osc_atom_u_setUInt16(*result, osc_atom_u_getUInt16(f1) - osc_atom_u_getUInt16(f2));
+				break;
+			case 'c':
+				osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) - osc_atom_u_getInt8(f2));
+				break;
+			case 'C':
+				osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) - osc_atom_u_getUInt8(f2));
+				break;
+			case 'i':
+			default: // booleans count as 0 and 1
+				osc_atom_u_setInt32(*result, (int32_t)((uint32_t)osc_atom_u_getInt32(f1) - (uint32_t)osc_atom_u_getInt32(f2)));
+				break;
+			}
 		}
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
-- 
2.43.0


From 8c562d4674455fdc9f8929565f7d283ac15c09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 029/130] fix: integer arithmetic on booleans, unsigned bytes
 and the most negative value

---
 osc_expr.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4a69e82..0fdfc8e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2381,13 +2381,14 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
 			case 'i':
-				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) + osc_atom_u_getInt32(f2));
+			default: // booleans count as 0 and 1
+				osc_atom_u_setInt32(*result, (int32_t)((uint32_t)osc_atom_u_getInt32(f1) + (uint32_t)osc_atom_u_getInt32(f2)));
 				break;
 			case 'I':
 				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) + osc_atom_u_getUInt32(f2));
 				break;
 			case 'h':
-				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) + osc_atom_u_getInt64(f2));
+				osc_atom_u_setInt64(*result, (int64_t)((uint64_t)osc_atom_u_getInt64(f1) + (uint64_t)osc_atom_u_getInt64(f2)));
 				break;
 			case 'H':
 				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) + osc_atom_u_getUInt64(f2));
@@ -2510,13 +2511,14 @@ int osc_expr_multiply(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
 			case 'i':
-				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) * osc_atom_u_getInt32(f2));
+			default: // booleans count as 0 and 1
+				osc_atom_u_setInt32(*result, (int32_t)((uint32_t)osc_atom_u_getInt32(f1) * (uint32_t)osc_atom_u_getInt32(f2)));
 				break;
 			case 'I':
 				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) * osc_atom_u_getUInt32(f2));
 				break;
 			case 'h':
-				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) * osc_atom_u_getInt64(f2));
+				osc_atom_u_setInt64(*result, (int64_t)((uint64_t)osc_atom_u_getInt64(f1) * (uint64_t)osc_atom_u_getInt64(f2)));
 				break;
 			case 'H':
 				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) * osc_atom_u_getUInt64(f2));
@@ -2575,12 +2577,14 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
 			case 'i':
+			default: // booleans count as 0 and 1
 				{
 					int32_t i2 = osc_atom_u_getInt32(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
+						// computed with 64 bits because INT32_MIN / -1 overflows
+						osc_atom_u_setInt32(*result, (int32_t)((int64_t)osc_atom_u_getInt32(f1) / i2));
 					}
 				}
 				break;
@@ -2599,6 +2603,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					int64_t i2 = osc_atom_u_getInt64(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
+					}else if(i2 == -1){
+						// INT64_MIN / -1 overflows
+						osc_atom_u_setInt64(*result, (int64_t)(0 - (uint64_t)osc_atom_u_getInt64(f1)));
 					}else{
 						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
 					}
@@ -2646,11 +2653,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
-- 
2.43.0


From 5a502f77ebc07ccdcc870c13612c54f182cd5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:21 +0000
Subject: [PATCH 030/130] fix: modulo of wide integers keeps the wide type

---
 osc_expr.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0fdfc8e..623a474 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3143,7 +3143,21 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			osc_atom_u_copyInto(result, f1);
 			return 0;
 		}
-		osc_atom_u_setInt32(*result, (int32_t)m);
+		char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
+		switch(tt){
+		case 'I':
+			osc_atom_u_setUInt32(*result, (uint32_t)m);
+			break;
+		case 'h':
+			osc_atom_u_setInt64(*result, (int64_t)m);
+			break;
+		case 'H':
+			osc_atom_u_setUInt64(*result, (uint64_t)m);
+			break;
+		default:
+			osc_atom_u_setInt32(*result, (int32_t)m);
+			break;
+		}
 	}
 	return 0;
 }
-- 
2.43.0


From 0836412291687b539d1c850e094762ccc4cc3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:23 +0000
Subject: [PATCH 031/130] fix: increment and decrement keep the value and type
 of every integer type

---
 osc_expr.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 623a474..044de45 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3192,7 +3192,7 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		char tt = osc_atom_u_getTypetag(a);
 		switch(tt){
 		case 'i':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getInt32(a) + 1);
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), (int32_t)((uint32_t)osc_atom_u_getInt32(a) + 1));
 			break;
 		case 'f':
 			osc_atom_u_setFloat(osc_atom_array_u_get(*out, i), osc_atom_u_getFloat(a) + 1);
@@ -3200,11 +3200,23 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
-		case 'I':
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
+		case 'h':
+			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), (int64_t)((uint64_t)osc_atom_u_getInt64(a) + 1));
+			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) + 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) + 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) + 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
@@ -3225,7 +3237,7 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		char tt = osc_atom_u_getTypetag(a);
 		switch(tt){
 		case 'i':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getInt32(a) - 1);
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), (int32_t)((uint32_t)osc_atom_u_getInt32(a) - 1));
 			break;
 		case 'f':
 			osc_atom_u_setFloat(osc_atom_array_u_get(*out, i), osc_atom_u_getFloat(a) - 1);
@@ -3233,11 +3245,23 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
-		case 'I':
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
+		case 'h':
+			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), (int64_t)((uint64_t)osc_atom_u_getInt64(a) - 1));
+			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) - 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) - 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) - 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
-- 
2.43.0


From b9bcaaa7b4b99b14b4ab78f70225b5b1de6e9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:24 +0000
Subject: [PATCH 032/130] fix: logical not treats every integer type alike and
 does not truncate

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 044de45..1435eb4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4161,7 +4161,11 @@ int osc_expr_not(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		case 'I':
 		case 'h':
 		case 'H':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i))));
+		case 'c':
+		case 'C':
+		case 'u':
+		case 'U':
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt64(osc_atom_array_u_get(*argv, i))));
 			break;
 		case 'f':
 		case 'd':
-- 
2.43.0


From db30ee15bd4df1fdf3a767b106a70d807c9a11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 033/130] fix: != accepts nil like == does

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 1435eb4..cde4e01 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2877,6 +2877,10 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 0);
+	}else if(tt1 == 'N' && tt2 == 'N'){
+		osc_atom_u_setBool(*result, 0);
+	}else if(tt1 == 'N' || tt2 == 'N'){
+		osc_atom_u_setBool(*result, 1);
 	}else if(tt1 == OSC_BUNDLE_TYPETAG && tt2 == OSC_BUNDLE_TYPETAG){
 		t_osc_bndl_u *b1 = osc_atom_u_getBndl(f1);
 		t_osc_bndl_u *b2 = osc_atom_u_getBndl(f2);
-- 
2.43.0


From 5612a9ed774a9f085417bbf7ec63f8d2ea8f8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:51 +0000
Subject: [PATCH 034/130] fix: the ^ operator calls the power function

---
 osc_expr_parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 524347a..0b1b7f2 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1261,7 +1261,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg '^' arg {
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| arg OSC_EXPR_EQ arg {
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "==", $1, $3);
@@ -1309,7 +1309,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg OSC_EXPR_POWEQ arg {
-		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| OSC_EXPR_OSCADDRESS '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
-- 
2.43.0


From 1af70ca839e883f1d8382e743573a9aa4bbffd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:52 +0000
Subject: [PATCH 035/130] fix: parse errors are reported without reading past
 the text or using it as a format

---
 osc_expr_parser.y | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 0b1b7f2..f4be6d8 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -253,20 +253,14 @@ void osc_expr_error_formatLocation(YYLTYPE *llocp, char *input_string, char **bu
 	int len = strlen(input_string);
 	if(llocp->first_column >= len || llocp->last_column >= len){
 		*buf = osc_mem_alloc(len + 1);
-		strncpy(*buf, input_string, len );
+		memcpy(*buf, input_string, len + 1);
 		return;
 	}
-	char s1[len * 2];
-	char s2[len * 2];
-	char s3[len * 2];
-	memcpy(s1, input_string, llocp->first_column);
-	s1[llocp->first_column] = '\0';
-	memcpy(s2, input_string + llocp->first_column, llocp->last_column - llocp->first_column);
-	s2[llocp->last_column - llocp->first_column] = '\0';
-	memcpy(s3, input_string + llocp->last_column, len - llocp->last_column);
-	s3[len - llocp->last_column] = '\0';
 	*buf = osc_mem_alloc(len * 3 + 24); // way too much
-	sprintf(*buf, "%s\n-->                %s\n%s\n", s1, s2, s3);
+	sprintf(*buf, "%.*s\n-->                %.*s\n%s\n",
+		llocp->first_column, input_string,
+		llocp->last_column - llocp->first_column, input_string + llocp->first_column,
+		input_string + llocp->last_column);
 }
 
 void osc_expr_error(void *context, YYLTYPE *llocp,
@@ -294,8 +288,13 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 		//}
     va_end(ap);
     
+	if(more_len < 0){
+		more_len = 0;
+	}else if(more_len >= sizeof(more)){
+		more_len = sizeof(more) - 1;
+	}
 	if(loclen || more_len){
-		char buf[loclen + more_len + 3];
+		char *buf = osc_mem_alloc(loclen + more_len + 3);
 		char *ptr = buf;
 		if(loclen){
 			ptr += sprintf(ptr, "%s\n", loc);
@@ -309,7 +308,9 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 				  NULL,
 				  -1,
 				  errorcode,
+				  "%s",
 				  buf);
+		osc_mem_free(buf);
 	}else{
 	  osc_error_handler(context,
 					__FILE__,//basename(__FILE__),
@@ -387,7 +388,7 @@ int osc_expr_parser_checkArity(void* context, YYLTYPE *llocp, char *input_string
  void yyerror(YYLTYPE *llocp, t_osc_expr **exprstack, t_osc_expr **tmp_exprstack, t_osc_expr_rec **rec, void *scanner, char *input_string, long *buflen, char **buf, int startcond, int *started, void *context, char const *e)
 {
 //	printf("(yyerror) %s context %p\n", __func__, context);
-	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, e);
+	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, "%s", e);
 }
 
 void osc_expr_parser_reportUnknownFunctionError(void *context, YYLTYPE *llocp,
-- 
2.43.0


From b6ac4a77ae14729f6c22116ce2037cb06be33ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:54 +0000
Subject: [PATCH 036/130] fix: the expression parser frees the atoms of
 addresses it copies

---
 osc_expr_parser.y | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index f4be6d8..89f345d 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -580,6 +580,7 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 		char *buf = osc_mem_alloc(len);
 		memcpy(buf, st, len);
 		osc_expr_arg_setOSCAddress(a, buf);
+		osc_atom_u_free(value);
 	}else{
 		osc_expr_arg_setOSCAtom(a, value);
 	}
@@ -1322,8 +1323,8 @@ expr:
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_STRING '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
@@ -1337,7 +1338,7 @@ expr:
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
 		//osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($3);
 	}
 	/* | OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg CLOSE_DBL_BRKTS '.' OSC_EXPR_OSCADDRESS{ */
 	/* 	printf("here\n"); */
@@ -1464,8 +1465,8 @@ expr:
 		osc_expr_arg_append(a1, a2);
 		osc_expr_arg_append(a1, $5);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assigntobundlemember", a1);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg ':' arg CLOSE_DBL_BRKTS '=' arg{
 		char *ptr = NULL;
@@ -1618,8 +1619,11 @@ expr:
 	}
 	| '`' OSC_EXPR_OSCADDRESS '`' {
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, osc_atom_u_getStringPtr($2));
+		char *ptr = NULL;
+		osc_atom_u_getString($2, 0, &ptr);
+		osc_expr_arg_setOSCAddress(arg, ptr);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
+		osc_atom_u_free($2);
 	}
 // invalid constructs that result in errors
 	| OSC_EXPR_STRING OSC_EXPR_INC '=' arg {
-- 
2.43.0


From 4c83aa8a28a7f82e0f20760af055a62abdd25b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 037/130] fix: the expression scanner keeps its column in the
 caller's location, not in a global

---
 osc_expr_scanner.l | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index cfa5e41..2561304 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -29,10 +29,9 @@
 #include "osc_expr_parser.h"
 #include "osc_expr.h"
 
-int colnum;
-
-#define YY_USER_INIT {yylineno = 0;colnum = 0; yylloc->first_line = 0; yylloc->first_column = 0; yylloc->last_column = 0; yylloc->last_line = 0;}
-#define YY_USER_ACTION {yylloc->first_line = yylineno; yylloc->first_column = colnum; colnum=colnum+yyleng; yylloc->last_column = colnum; yylloc->last_line = yylineno;}
+// the parser's location carries the column from one token to the next
+#define YY_USER_INIT {yylineno = 0; yylloc->first_line = 0; yylloc->first_column = 0; yylloc->last_column = 0; yylloc->last_line = 0;}
+#define YY_USER_ACTION {yylloc->first_line = yylineno; yylloc->first_column = yylloc->last_column; yylloc->last_column += yyleng; yylloc->last_line = yylineno;}
 
 int osc_expr_scanner_wrap(yyscan_t scanner){
 	return 1;
-- 
2.43.0


From b781749a4864355ca486433a363267d0b57d9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:57 +0000
Subject: [PATCH 038/130] fix: expression strings keep everything after an
 escaped quote

---
 osc_expr_parser.y  |  8 ++++++++
 osc_expr_scanner.l | 14 +++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 89f345d..8a69709 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -193,6 +193,10 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, NULL, scanner, ptr, &buflen, &buf, startcond, &started, context);
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		// an unfinished quoted string
+		osc_mem_free(buf);
+	}
 	if(tmp_exprstack){
 		if(exprstack){
 			osc_expr_appendExpr(exprstack, tmp_exprstack);
@@ -237,6 +241,10 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		// an unfinished quoted string
+		osc_mem_free(buf);
+	}
 	return ret;
 }
 
diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 2561304..ad7568b 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -181,8 +181,8 @@ quote[[:space:]]*\( {
 <quote>[^\"]+ { 
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
-		*buflen += yyleng + 1;
-		strcat(*buf, yytext);
+		memcpy(*buf + *buflen, yytext, yyleng + 1);
+		*buflen += yyleng;
 	}else{
 		//char *copy = osc_mem_alloc(yyleng + 1);
 		//strncpy(copy, yytext, yyleng + 1);
@@ -199,11 +199,11 @@ quote[[:space:]]*\( {
 <quote>\" {
 	BEGIN(0);
 	if(*buf){
-		t_osc_atom_u *a = osc_atom_u_alloc();
-		//osc_atom_u_setStringPtr(a, *buf);
-		//osc_atom_u_setShouldFreePtr(a, 1);
-		yylval->atom = osc_atom_u_allocWithString(*buf);
-		//yylval->string = *buf;
+		if(alloc_atom){
+			yylval->atom = osc_atom_u_alloc();
+		}
+		osc_atom_u_setString(yylval->atom, *buf);
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSC_EXPR_STRING;
-- 
2.43.0


From 5c4672f75a6e595fcd8e3130ab40c0c63fb002f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:30 +0000
Subject: [PATCH 039/130] fix: ++ and -- keep the elements that are not numbers

---
 osc_expr.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index cde4e01..f82f60d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3225,6 +3225,13 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
 			break;
+		default:
+			{
+				// not a number: the element keeps its value
+				t_osc_atom_u *o = osc_atom_array_u_get(*out, i);
+				osc_atom_u_copyInto(&o, a);
+			}
+			break;
 		}
 	}
 	return 0;
@@ -3270,6 +3277,13 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
 			break;
+		default:
+			{
+				// not a number: the element keeps its value
+				t_osc_atom_u *o = osc_atom_array_u_get(*out, i);
+				osc_atom_u_copyInto(&o, a);
+			}
+			break;
 		}
 	}
 	return 0;
-- 
2.43.0


From 14e79a4699d157c7091c29b29b300b8e2288476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:30 +0000
Subject: [PATCH 040/130] fix: if() with an empty list as its condition is
 false

---
 osc_expr.c | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f82f60d..e6f86a1 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1081,14 +1081,9 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		return err;
 	}
 
-	int test_result_len = osc_atom_array_u_getLen(argv);
-	t_osc_atom_ar_u *boolvec[test_result_len];
-	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
-	int outlen = 0;
-	int j = 0;
-	//for(int j = 0; j < osc_atom_array_u_getLen(argv); j++){
-		if(osc_atom_u_getInt32(osc_atom_array_u_get(argv, j))){
-			err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, boolvec + j, context);
+	t_osc_atom_ar_u *result = NULL;
+		if(osc_atom_array_u_getLen(argv) > 0 && osc_atom_u_getInt32(osc_atom_array_u_get(argv, 0))){
+			err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &result, context);
 			if(err){
                 if(err == OSC_ERR_EXPR_ADDRESSUNBOUND)
                 {
@@ -1109,10 +1104,9 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
                 }
                 goto out;
 			}
-			outlen += osc_atom_array_u_getLen(boolvec[j]);
 		}else{
 			if(f_argc > 2){
-				err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, boolvec + j, context);
+				err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &result, context);
 				if(err){
                     if(err == OSC_ERR_EXPR_ADDRESSUNBOUND)
                     {
@@ -1133,22 +1127,17 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
                     }
                     goto out;
 				}
-				outlen += osc_atom_array_u_getLen(boolvec[j]);
 			}
 		}
-		//}
-	*out = osc_atom_array_u_alloc(outlen);
-	for(int i = 0; i < test_result_len; i++){
-		osc_atom_array_u_copyInto(out, boolvec[i], j);
-		j += osc_atom_array_u_getLen(boolvec[i]);
-	}
+	*out = result ? result : osc_atom_array_u_alloc(0);
+	result = NULL;
  out:
-	for(int i = 0; i < test_result_len; i++){
-		if(boolvec[i]){
-			osc_atom_array_u_free(boolvec[i]);
-		}
+	if(result){
+		osc_atom_array_u_free(result);
+	}
+	if(argv){
+		osc_atom_array_u_free(argv);
 	}
-	osc_atom_array_u_free(argv);
 	return err;
 }
 
-- 
2.43.0


From 7f74b746b87d523173bafbf6056f8d86b324d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:30 +0000
Subject: [PATCH 041/130] fix: indexed assignment survives operands that change
 the bundle or fail

---
 osc_expr.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e6f86a1..5f7b615 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -929,12 +929,6 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
-	if(!msg_ar){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index =");
-		return 1;
-	}
-
 	t_osc_atom_ar_u *indexes = NULL;
 	t_osc_atom_ar_u *data = NULL;
     t_osc_err err = 0;
@@ -947,6 +941,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, out, context);
         if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
             osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
+        }
+        if(err){
             goto bail;
         }
         int outlen = osc_atom_array_u_getLen(*out);
@@ -954,8 +950,12 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         // get index(es)
         err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &indexes, context);
         if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
+            if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+                osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
+            }
             // osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "assign to index 2");
+        }
+        if(err){
             goto bail;
         }
         int nindexes = osc_atom_array_u_getLen(indexes);
@@ -963,8 +963,11 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &data, context);
         if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
             //osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assign to index 3");
-            osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
-
+            if(osc_expr_arg_getType(f_argv->next->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+                osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
+            }
+        }
+        if(err){
             goto bail;
         }
         int ndata = osc_atom_array_u_getLen(data);
@@ -1016,9 +1019,13 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         }
 
         t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
-        if(msg_ar){
-            osc_bundle_s_replaceMessage(len, len, oscbndl, osc_message_array_s_get(msg_ar, 0), osc_msg_s);
-            osc_message_array_s_free(msg_ar);
+        // evaluating the arguments may have moved or changed the bundle, so look the message up only now
+        char *found_ptr = osc_bundle_s_getFirstEqualAddr(*len, *oscbndl, f_argv->arg.osc_address);
+        if(found_ptr){
+            t_osc_msg_s *m = osc_message_s_alloc();
+            osc_message_s_wrap(m, found_ptr);
+            osc_bundle_s_replaceMessage(len, len, oscbndl, m, osc_msg_s);
+            osc_message_s_free(m);
         }else{
             osc_bundle_s_appendMessage(len, oscbndl, osc_msg_s);
         }
@@ -1029,6 +1036,10 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
     }
 
 bail:
+    if (err && *out){
+        osc_atom_array_u_free(*out);
+        *out = NULL;
+    }
     if (indexes)
         osc_atom_array_u_free(indexes);
     if (data)
-- 
2.43.0


From 63a08cf8a86f0845349f40dac2644dd2d320bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 042/130] fix: an unbound address inside an argument is not
 reported through the wrong member

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5f7b615..b6013ef 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6877,7 +6877,7 @@ inline t_osc_expr *osc_expr_arg_getExpr(t_osc_expr_arg *a)
 
 inline char *osc_expr_arg_getOSCAddress(t_osc_expr_arg *a)
 {
-	if(a){
+	if(a && a->type == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 		return a->arg.osc_address;
 	}
 	return NULL;
@@ -7324,6 +7324,10 @@ static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, in
 
 static void osc_expr_err_unbound(void *context, char *address, char *func)
 {
+	if(!address){
+		// the argument was not an address but an expression, which reported the error itself
+		return;
+	}
 	osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s: address %s is unbound", func, address);
 }
 
-- 
2.43.0


From 44970bfb71acd157a3f135ba32041bcb4884da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 043/130] fix: assign() frees its address and stops when the
 address fails to evaluate

---
 osc_expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index b6013ef..e8041c0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -811,6 +811,11 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 		}
 		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
 			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "=");
+		}
+		if(err){
+			if(address_ar){
+				osc_atom_array_u_free(address_ar);
+			}
 			return err;
 		}
 		if(!address_ar){
@@ -829,6 +834,9 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     t_osc_err err;
 	if((err = osc_error_validateAddress(address))){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign() must be an OSC address.");		
+		if(address){
+			osc_mem_free(address);
+		}
 		return err;
 	}
 
-- 
2.43.0


From 1a9ea58a12ea91eea88c5de33465384c557d1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 044/130] fix: exists() and bound() free what they evaluate

---
 osc_expr.c | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e8041c0..005c8e6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1269,29 +1269,17 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 				t_osc_atom_ar_u *ar = NULL;
 				int err = osc_expr_evalInLexEnv(osc_expr_arg_getExpr(f_argv), lexenv, len, oscbndl, &ar, context);
 				if(!err && ar){
-					if(osc_atom_array_u_getLen(ar) != 1){
-						osc_atom_array_u_free(ar);
-						goto err;
+					if(osc_atom_array_u_getLen(ar) == 1 && osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) == 's'){
+						osc_atom_u_getString(osc_atom_array_u_get(ar, 0), 0, &address);
 					}
-					t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
-					if(!a){
-						osc_atom_array_u_free(ar);
-						goto err;
-					}
-					if(osc_atom_u_getTypetag(a) != 's'){
-						osc_atom_array_u_free(ar);
-						goto err;
-					}
-					osc_atom_u_getString(a, 0, &address);
-					if(!address){
-						osc_atom_array_u_free(ar);
-						goto err;
-					}
-					if(address[0] != '/'){
-						osc_atom_array_u_free(ar);
-						goto err;
+					if(address && address[0] != '/'){
+						osc_mem_free(address);
+						address = NULL;
 					}
 				}
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 			}
 		}
 		break;
@@ -1304,7 +1292,6 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 		osc_mem_free(address);
 		return 0;
 	}
- err:
 	osc_error(context, OSC_ERR_EXPR_ARGCHK, "arg 1 should be an OSC address");
 	return 1;
 
-- 
2.43.0


From 39b0b0def658c186667f7c86bdbbb7bdf8f01bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 045/130] fix: delete() frees the address it was given as a
 string

---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index 005c8e6..6990352 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1399,6 +1399,7 @@ static int osc_expr_specFunc_delete(t_osc_expr *f,
 				char *st = NULL;
 				osc_atom_u_getString(a, 0, &st);
 				osc_bundle_s_removeMessage(st, len, *oscbndl, 1);
+				osc_mem_free(st);
 			}
 		}
 		f_argv = f_argv->next;
-- 
2.43.0


From d08955733524549456f0ac0127ce65c925865b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 046/130] fix: emptybundle() frees its argument

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 6990352..18a729c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1195,6 +1195,9 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		}else{
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}
+		if(ar){
+			osc_atom_array_u_free(ar);
+		}
 	}else{
 		if(*len == OSC_HEADER_SIZE){
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
-- 
2.43.0


From 6f5c11edd0f9ab97171cbcda2e5eecb73b9ebae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 047/130] fix: settimetag() frees its argument

---
 osc_expr.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 18a729c..ebdf7aa 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1719,20 +1719,19 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err){
-		return 1;
+	int ret = 1;
+	if(!err && osc_atom_array_u_getLen(arg) > 0){
+		t_osc_atom_u *a = osc_atom_array_u_get(arg, 0);
+		if(a){
+			t_osc_timetag t = osc_atom_u_getTimetag(a);
+			osc_bundle_s_setTimetag(*len, *oscbndl, t);
+			ret = 0;
+		}
 	}
 	if(arg){
-		if(osc_atom_array_u_getLen(arg) > 0){
-			t_osc_atom_u *a = osc_atom_array_u_get(arg, 0);
-			if(a){
-				t_osc_timetag t = osc_atom_u_getTimetag(a);
-				osc_bundle_s_setTimetag(*len, *oscbndl, t);
-				return 0;
-			}
-		}
+		osc_atom_array_u_free(arg);
 	}
-	return 1;
+	return ret;
 }
 
 static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
-- 
2.43.0


From 48fc4a29b9b78277fbc034c72bb00553d9cf285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 048/130] fix: calling a function without arguments declared an
 argument vector of size 0

Property: C16
---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index ebdf7aa..a11a0d6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -176,7 +176,7 @@ int osc_expr_evalInLexEnv(t_osc_expr *f,
         // printf("function call \n" );
 		long f_argc = osc_expr_getArgCount(f);
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-		t_osc_atom_ar_u *argv[f_argc];
+		t_osc_atom_ar_u *argv[f_argc > 0 ? f_argc : 1];
 		memset(argv, '\0', sizeof(argv));
 		int ret = 0;
 		int i = 0;
-- 
2.43.0


From 03a27bcfb94634564fe51e652ffa92b555076ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 049/130] fix: strcmp, strlen, strchar, strfind and split used
 a NULL string for arguments without text

Property: C16
---
 osc_expr.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index a11a0d6..adfa858 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5160,6 +5160,15 @@ int osc_expr_strcmp(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	char *st1 = NULL, *st2 = NULL;
 	osc_atom_u_getString(osc_atom_array_u_get(*argv, 0), 0, &st1);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &st2);
+	if(!st1 || !st2){
+		if(st1){
+			osc_mem_free(st1);
+		}
+		if(st2){
+			osc_mem_free(st2);
+		}
+		return 1;
+	}
 	int ret = 0;
 	if(argc == 3){
 		int n = osc_atom_u_getInt(osc_atom_array_u_get(argv[2], 0));
@@ -5187,6 +5196,8 @@ int osc_expr_strlen(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
     {
         char *str = NULL;
         osc_atom_u_getString(osc_atom_array_u_get(*argv, i), 0, &str);
+        if(!str)
+            return 1;
         long len = strlen(str);
         osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), len);
         osc_mem_free(str);
@@ -5210,6 +5221,8 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     {
         char *str = NULL;
         osc_atom_u_getString(osc_atom_array_u_get(argv[1], i), 0, &str);
+        if(!str)
+            return 1;
         long len = strlen(str);
         
         char buf[numchars+1];
@@ -5244,6 +5257,12 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
     osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &substr);
     if(!substr || !str){
+        if(substr){
+            osc_mem_free(substr);
+        }
+        if(str){
+            osc_mem_free(str);
+        }
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5252,6 +5271,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long substrlen = strlen(substr);
     if(substrlen == 0)
     {
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 0;
     }
     
@@ -5289,6 +5310,12 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &sep);
 	if(!sep || !str){
+		if(sep){
+			osc_mem_free(sep);
+		}
+		if(str){
+			osc_mem_free(str);
+		}
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5298,6 +5325,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			osc_atom_u_setInt8(a, str[i]);
 		}
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 0;
 	}
 	int n = 16;
-- 
2.43.0


From e79fcc2cd13430ff75757b3b151482b0c63b2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 050/130] fix: join freed a string literal, read NULL for
 elements without text and left a separator at the end

Property: C16
---
 osc_expr.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index adfa858..1e24c80 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5366,14 +5366,12 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	int seplen = 0;
 	if(sep){
 		seplen = strlen(sep);
-	}else{
-		sep = "";
 	}
 	int n = 0;
 	for(int i = 1; i < argc; i++){
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
-	char *ptrs[n];
+	char *ptrs[n > 0 ? n : 1];
 	int len = 0;
 	n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5382,28 +5380,28 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			t_osc_atom_u *a = osc_atom_array_u_get(argv[i], j);
 			osc_atom_u_getString(a, 0, &ptr);
 			char tt = osc_atom_u_getTypetag(a);
+			if(!ptr){
+				continue;
+			}
 			if(tt == 'c' || tt == 'C'){
 				ptr[0] = ptr[1];
 				ptr[1] = 0;
 			}
 			ptrs[n++] = ptr;
-			if(ptr){
-				len += strlen(ptr) + seplen;
-			}
+			len += strlen(ptr) + seplen;
 		}
 	}
 	len++;
 	char *buf = (char *)osc_mem_alloc(len);
 	char *bufptr = buf;
+	*buf = '\0';
 	for(int i = 0; i < n; i++){
-		if(ptrs[i]){
-			if(i == n - 1){
-				bufptr += sprintf(bufptr, "%s", ptrs[i]);
-			}else{
-				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep);
-			}
-			osc_mem_free(ptrs[i]);
+		if(i == n - 1){
+			bufptr += sprintf(bufptr, "%s", ptrs[i]);
+		}else{
+			bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep ? sep : "");
 		}
+		osc_mem_free(ptrs[i]);
 	}
 	*out = osc_atom_array_u_alloc(1);
 	osc_atom_u_setStringPtr(osc_atom_array_u_get(*out, 0), buf);
-- 
2.43.0


From 96d6201aa249023d6b1d0cb68acb48e75bea1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 051/130] fix: median of an empty list read outside its array

Property: C16
---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 1e24c80..1b7a0e8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3801,6 +3801,10 @@ int osc_expr_median(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	*out = osc_atom_array_u_alloc(1);
 
 	long len = osc_atom_array_u_getLen(*argv);
+	if(len == 0){
+		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 0.);
+		return 0;
+	}
 	double *tmp = NULL;
 	osc_atom_array_u_getDoubleArray(*argv, &tmp);
 	qsort((void *)(tmp), len, sizeof(double), comp);
-- 
2.43.0


From 4bc380e2709e65503e4cb8f1da6ef996c925437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 052/130] fix: the list functions declared arrays of size 0 for
 empty lists

Property: C16
---
 osc_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1b7a0e8..15b7a94 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3920,7 +3920,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long n = osc_atom_array_u_getLen(argv[0]);
     
     *out = osc_atom_array_u_alloc(n);
-    t_sortIndexStruct sort_ar[n];
+    t_sortIndexStruct sort_ar[n > 0 ? n : 1];
     
     for(int i = 0; i < n; i++)
     {
@@ -3944,7 +3944,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	long n = osc_atom_array_u_getLen(argv[0]);
-	long idxs[n];
+	long idxs[n > 0 ? n : 1];
 	long idxcount = 0;
 	for(int i = 0; i < n; i++){
 		t_osc_atom_u *a = osc_atom_array_u_get(argv[0], i);
@@ -6424,7 +6424,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		t_osc_msg_u *full = osc_message_u_allocWithAddress("/full");
 		t_osc_msg_u *partial = osc_message_u_allocWithAddress("/partial");
 		t_osc_msg_u *unmatched = osc_message_u_allocWithAddress("/unmatched");
-		int matches[naddresses];
+		int matches[naddresses > 0 ? naddresses : 1];
 		memset(matches, 0, sizeof(int) * naddresses);
 		for(int j = 0; j < naddresses; j++){
 			t_osc_atom_u *address = osc_atom_array_u_get(argv[1], j);
-- 
2.43.0


From 84270e6af81c1e12cff6c881a183abe79416037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 053/130] fix: sortidx leaked the strings it sorted

Property: C16
---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 15b7a94..6f6ea9d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3935,7 +3935,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     for( int i = 0; i < n; i++ )
     {
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
-        osc_mem_free(sort_ar[i].a);
+        osc_atom_u_free(sort_ar[i].a);
     }
     
     return 0;
-- 
2.43.0


From d26d4da4d10c2c796a0ce58935457fa61a7748ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 054/130] fix: sort gave qsort a comparison that is never equal

Property: C16
---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 6f6ea9d..d7d08b8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3854,7 +3854,7 @@ static int osc_expr_qsortcb(const void *a1, const void *a2)
 		double d2 = osc_atom_u_getDouble(aa2);
 		if(d1 < d2){
 			return -1;
-		}else{
+		}else if(d1 > d2){
 			return 1;
 		}
 	}
-- 
2.43.0


From 541b71ecdcd639e002ff2de844df39b5765d53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 055/130] fix: bitand and bitor of unsigned chars gave a signed
 char

Property: C16
---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d7d08b8..2c129fd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5480,7 +5480,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
 	}
@@ -5551,7 +5551,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
 	}
-- 
2.43.0


From 02cb00edf1d73d0c70f9018aac076fa556d7bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 056/130] fix: the determinant of a singular matrix of more
 than three rows was NaN

Property: C16
---
 osc_expr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2c129fd..477ef7b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4435,7 +4435,7 @@ int LUPDecompose(double **A, int N, double Tol, int *P) {
 				imax = k;
 			}
 
-		if (maxA < Tol) return 0; //failure, matrix is degenerate
+		if (maxA <= Tol) return 0; //failure, matrix is degenerate
 
 		if (imax != i) {
 			//pivoting P
@@ -4531,8 +4531,10 @@ int osc_expr_det(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 		int P[argc + 1];
 		memset(P, 0, sizeof(int) * (argc + 1));
-		LUPDecompose(cells, argc, 0, P);
-		double d = LUPDeterminant(cells, P, argc);
+		double d = 0.;
+		if(LUPDecompose(cells, argc, 0, P)){
+			d = LUPDeterminant(cells, P, argc);
+		}
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), d);
 		for(int j = 0; j < argc; j++){
 			if(cells[j]){
-- 
2.43.0


From 5b4855b276274d949dad0190d8753ccea2d26a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 057/130] fix: casting -128 to a string dropped its last digit

Property: C16
---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 477ef7b..0370fbf 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6114,7 +6114,7 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 				buf[0] = c;
 				buf[1] = 0;
 			}else{
-				snprintf(buf, 4, "%d", c);
+				snprintf(buf, sizeof(buf), "%d", c);
 			}
 			osc_atom_u_setString(dest, buf);
 			return 0;
-- 
2.43.0


From 5b25238b814e4eac54d2bff799c1ebe20914f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 058/130] fix: nextafter() was called without its second
 argument

Property: C16
---
 osc_expr.c      | 5 +++++
 osc_expr_func.h | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0370fbf..f2721d9 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2203,6 +2203,11 @@ int osc_expr_1arg_dbl(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 	return 0;
 }
 
+double osc_expr_nextafter(double x)
+{
+	return nextafter(x, INFINITY);
+}
+
 int osc_expr_2arg_dbl_dbl(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context)
 {
     if( argc != 2 )
diff --git a/osc_expr_func.h b/osc_expr_func.h
index 524b4fc..19645d5 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -132,6 +132,7 @@ int osc_expr_identity(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 int osc_expr_eval_call(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
 int osc_expr_tokenize(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
 int osc_expr_compile(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
+double osc_expr_nextafter(double x);
 int osc_expr_prog1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
 int osc_expr_prog2(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
 int osc_expr_progn(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context);
@@ -1259,7 +1260,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (char *[]){"/math/constant", NULL},
 	 "Next representable double-precision floating-point number",
 	 osc_expr_1arg_dbl,
-	 (void *)nextafter},
+	 (void *)osc_expr_nextafter},
 	//////////////////////////////////////////////////
 	{"remainder",
 	 "/result = remainder($1, $2)",
-- 
2.43.0


From aa8b6c83813ea956c2d997795e1b059e4d8d6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 059/130] fix: sums and products of integers below the range of
 an int32 were wrong

Property: C16
---
 osc_expr.c | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f2721d9..b4ee8a8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3443,6 +3443,23 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 	return 0;
 }
 
+// store the result of an integer computation in the smallest of the types int32,
+// uint32, int64, uint64, that can hold it, or as a double if none of them can.
+static void osc_expr_setIntegerResult(t_osc_atom_u *a, double val)
+{
+	if(val > -2147483649. && val < 2147483648.){
+		osc_atom_u_setInt32(a, (int32_t)val);
+	}else if(val >= 0 && val < 4294967296.){
+		osc_atom_u_setUInt32(a, (uint32_t)val);
+	}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
+		osc_atom_u_setInt64(a, (int64_t)val);
+	}else if(val >= 0 && val < 18446744073709551616.){
+		osc_atom_u_setUInt64(a, (uint64_t)val);
+	}else{
+		osc_atom_u_setDouble(a, val);
+	}
+}
+
 int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	*out = osc_atom_array_u_alloc(1);
@@ -3465,17 +3482,7 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setIntegerResult(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
@@ -3506,17 +3513,7 @@ int osc_expr_sum(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setIntegerResult(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
-- 
2.43.0


From 4df3ad34c3e7985fbb69fcd0de24b0447804238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 060/130] fix: product() dropped the fraction of a product of
 floats

Property: C16
---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index b4ee8a8..8e2d9a3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3476,6 +3476,10 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 		}
 		int i;
 		for(i = 0; i < len; i++){
+			char tt = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[j], i));
+			if(OSC_TYPETAG_ISFLOAT(tt)){
+				doubleup = 1;
+			}
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
-- 
2.43.0


From 3117d00ea83edddb6b640e06fc925ad3e791c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 061/130] fix: range, clip and scale gave wrong values for
 integers beyond the range of an int32

Property: C16
---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8e2d9a3..78d328e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4778,7 +4778,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	if(ttmin == 'f' || ttmin == 'd' || ttmax == 'f' || ttmax == 'd'){
 		osc_atom_u_setDouble(r, max - min);
 	}else{
-		osc_atom_u_setInt32(r, max - min);
+		osc_expr_setIntegerResult(r, max - min);
 	}
 	return 0;
 }
@@ -4825,7 +4825,7 @@ int osc_expr_clip(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		if(type == 'f' || type == 'd' || fl){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setIntegerResult(osc_atom_array_u_get(result, i), val);
 		}
 	}
 	return 0;
@@ -4873,7 +4873,7 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			if(fl || type == 'd' || type == 'f'){
 				osc_atom_u_setDouble(osc_atom_array_u_get(result, i), min_out);
 			}else{
-				osc_atom_u_setInt32(osc_atom_array_u_get(result, i), min_out);
+				osc_expr_setIntegerResult(osc_atom_array_u_get(result, i), min_out);
 			}
 		}
 		return 0;
@@ -4894,7 +4894,7 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		if(fl || type == 'd' || type == 'f'){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setIntegerResult(osc_atom_array_u_get(result, i), val);
 		}
 	}
 	return 0;
-- 
2.43.0


From 2b0274e469bba1ea3fa03fa342ffa691e3fbde9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 062/130] fix: min, max and extrema of an empty list or of
 infinities gave an element without a type

Property: C16
---
 osc_expr.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 78d328e..3dc775e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4685,11 +4685,15 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		*out = osc_atom_array_u_alloc(0);
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX;
-	t_osc_atom_u *a = NULL;
+	double min = INFINITY;
+	t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
 		if(f <= min){
@@ -4706,11 +4710,15 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		*out = osc_atom_array_u_alloc(0);
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double max = -DBL_MAX;
-	t_osc_atom_u *a = NULL;
+	double max = -INFINITY;
+	t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
 		if(f >= max){
@@ -4727,11 +4735,15 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	if(argc == 0){
 		return 0;
 	}
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		*out = osc_atom_array_u_alloc(0);
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(2);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
-	t_osc_atom_u *amin = NULL, *amax = NULL;
+	double min = INFINITY, max = -INFINITY;
+	t_osc_atom_u *amin = osc_atom_array_u_get(*argv, 0), *amax = amin;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
 		if(f <= min){
-- 
2.43.0


From 5bc98a60804da1092812dbfa638f998174671f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 063/130] fix: the range of an empty list or of infinities was
 wrong

Property: C16
---
 osc_expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3dc775e..6deee1c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4769,7 +4769,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = INFINITY, max = -INFINITY;
 	char ttmin = 'i';
 	char ttmax = 'i';
 	//t_osc_atom_u *amin = NULL, *amax = NULL;
@@ -4787,7 +4787,9 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		}
 	}
 	t_osc_atom_u *r = osc_atom_array_u_get(*out, 0);
-	if(ttmin == 'f' || ttmin == 'd' || ttmax == 'f' || ttmax == 'd'){
+	if(osc_atom_array_u_getLen(*argv) == 0){
+		osc_atom_u_setInt32(r, 0);
+	}else if(ttmin == 'f' || ttmin == 'd' || ttmax == 'f' || ttmax == 'd'){
 		osc_atom_u_setDouble(r, max - min);
 	}else{
 		osc_expr_setIntegerResult(r, max - min);
-- 
2.43.0


From 084a30c1fa680a0579463d6b4553ceb99871ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 064/130] fix: nfill() refused to be called without its
 optional argument

Property: C16
---
 osc_expr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 6deee1c..c360fc8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3987,8 +3987,8 @@ int osc_expr_list(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 
 int osc_expr_nfill(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
-    if(argc < 2){
-        osc_expr_err_argnum(context, 2, argc, 1, "osc_expr: nfill()");
+    if(argc < 1){
+        osc_expr_err_argnum(context, 1, argc, 1, "osc_expr: nfill()");
         return 1;
     }
 	int n = osc_atom_u_getInt(osc_atom_array_u_get(*argv, 0));
@@ -3996,6 +3996,13 @@ int osc_expr_nfill(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		n = 0;
 	}
 	//t_osc_atom_u *val = NULL;
+	if(argc == 1){
+		*out = osc_atom_array_u_alloc(n);
+		for(int i = 0; i < n; i++){
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), 0);
+		}
+		return 0;
+	}
 
 	int outlen = n * osc_atom_array_u_getLen(argv[1]);
 	*out = osc_atom_array_u_alloc(outlen);
-- 
2.43.0


From 07c4446818d095a3476818bc085c72976a978bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 065/130] fix: aseq() of an empty list gave an element without
 a type, and the number of steps overflowed an int

Property: C16
---
 osc_expr.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index c360fc8..0e145a8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4038,6 +4038,12 @@ int osc_expr_aseq(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		osc_expr_err_argnum(context, 2, argc, 1, "osc_expr: aseq()");
 		return 1;
 	}
+	for(int k = 0; k < argc; k++){
+		if(osc_atom_array_u_getLen(argv[k]) == 0){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "aseq: argument %d is empty", k + 1);
+			return 1;
+		}
+	}
 	int dblup = 0;
 	if(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0)) == 'f' ||
 	   osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0)) == 'f' ||
@@ -4087,7 +4093,12 @@ int osc_expr_aseq(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		max = tmp;
 	}
 	int i = 0;
-	int n = (int)(((max - min) / abs_step)) + 1;
+	double steps = (max - min) / abs_step;
+	if(!(steps < INT32_MAX)){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "aseq: too many steps");
+		return 1;
+	}
+	int n = (int)steps + 1;
 	*out = osc_atom_array_u_alloc(n);
 
 	if(dblup){
-- 
2.43.0


From b5039b378f45fb72decd4de729550b3eff3c1ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 066/130] fix: hton and ntoh of anything but integers of their
 size gave elements without a type

Property: C16
---
 osc_expr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 0e145a8..af374fe 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6283,6 +6283,9 @@ int osc_expr_hton32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), hton32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton32: the arguments must be integers of at most 32 bits");
+				return 1;
 			}
 			k++;
 		}
@@ -6312,6 +6315,9 @@ int osc_expr_ntoh32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), ntoh32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh32: the arguments must be integers of at most 32 bits");
+				return 1;
 			}
 			k++;
 		}
@@ -6343,6 +6349,9 @@ int osc_expr_hton64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton64: the arguments must be integers of at most 64 bits");
+				return 1;
 			}
 			k++;
 		}
@@ -6374,6 +6383,9 @@ int osc_expr_ntoh64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), ntoh64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh64: the arguments must be integers of at most 64 bits");
+				return 1;
 			}
 			k++;
 		}
-- 
2.43.0


From 8cd73e771cd4de0857f2680ffac3f699846f560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 067/130] fix: strtotime of text that is not a time gave an
 arbitrary time tag

Property: C16
---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index af374fe..8201893 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6430,7 +6430,7 @@ int osc_expr_strtotime(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 	}
 	char *st = osc_atom_u_getStringPtr(a);
 	*out = osc_atom_array_u_alloc(1);
-	t_osc_timetag tt;
+	t_osc_timetag tt = OSC_TIMETAG_NULL;
 	osc_timetag_fromISO8601(st, &tt);
 	osc_atom_u_setTimetag(osc_atom_array_u_get(*out, 0), tt);
 	return 0;
-- 
2.43.0


From aea459e19c45650bd040d0fdc28fb5418a4402bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 068/130] fix: match gave elements without a type for patterns
 that are not strings

Property: C16
---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index 8201893..e73d682 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6468,6 +6468,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	for(int i = 0; i < npatterns; i++){
 		t_osc_atom_u *pattern = osc_atom_array_u_get(argv[0], i);
 		if(osc_atom_u_getTypetag(pattern) != 's'){
+			osc_atom_u_setNil(osc_atom_array_u_get(*out, i));
 			continue;
 		}
 		char *pattern_string = osc_atom_u_getStringPtr(pattern);
-- 
2.43.0


From f7aa45d006224de64cac568d4ca2c1cad1f170a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 069/130] fix: floattotime, strtotime and match went on after
 refusing the number of arguments

Property: C16
---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index e73d682..f66c702 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6418,6 +6418,7 @@ int osc_expr_strtotime(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 {
 	if(argc != 1){
 		osc_expr_err_argnum(context, 1, argc, 0, "strtotime");
+		return 1;
 	}
 	if(osc_atom_array_u_getLen(argv[0]) > 1){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "strtotime takes a single string as an argument. found a list\n");
@@ -6440,6 +6441,7 @@ int osc_expr_floattotime(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_
 {
 	if(argc != 1){
 		osc_expr_err_argnum(context, 1, argc, 0, "floattotime");
+		return 1;
 	}
 	if(osc_atom_array_u_getLen(argv[0]) > 1){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "floattotime takes a single float as an argument. found a list\n");
@@ -6461,6 +6463,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 {
 	if(argc != 2){
 		osc_expr_err_argnum(context, 2, argc, 0, "match");
+		return 1;
 	}
 	int npatterns = osc_atom_array_u_getLen(argv[0]);
 	int naddresses = osc_atom_array_u_getLen(argv[1]);
-- 
2.43.0


From d6b5eeb4e6d68c0538b7b224cbfe22dad12f443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:36 +0000
Subject: [PATCH 070/130] fix: bitand and bitor of lists of mixed types gave an
 element without a type

Property: C16
---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f66c702..1812cd4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5523,6 +5523,9 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
+	default:
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bitand: the arguments must be integers");
+		return 1;
 	}
 	return 0;
 }
@@ -5594,6 +5597,9 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
+	default:
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bitor: the arguments must be integers");
+		return 1;
 	}
 	return 0;
 }
-- 
2.43.0


From eeb4edee55ed5bea872ad4f9efdf0e9daf9c1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:36 +0000
Subject: [PATCH 071/130] fix: cast() gave elements without a type for type
 tags given as strings, unknown or missing type tags, and data that cannot be
 cast

Property: C16
---
 osc_expr.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1812cd4..b52c904 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6191,11 +6191,27 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	int32_t l = 0;
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
+	if(!blob){
+		return 1;
+	}
 	osc_atom_u_setBlobPtr(dest, blob);
 	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
+// a typetag may be given as a character or as a string
+static char osc_expr_explicitCast_getTypetag(t_osc_atom_u *a)
+{
+	if(!a){
+		return 0;
+	}
+	if(osc_atom_u_getTypetag(a) == 's'){
+		char *s = osc_atom_u_getStringPtr(a);
+		return s ? *s : 0;
+	}
+	return osc_atom_u_getInt8(a);
+}
+
 int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context)
 {
 	if(argc > 1){
@@ -6206,7 +6222,7 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 		if(arglen > 1 && ttlen == 1){
 			alloc = 1;
 			ttarray = osc_atom_array_u_alloc(arglen);
-			char tt = osc_atom_u_getInt8(osc_atom_array_u_get(argv[0], 0));
+			char tt = osc_expr_explicitCast_getTypetag(osc_atom_array_u_get(argv[0], 0));
 			for(int i = 0; i < arglen; i++){
 				osc_atom_u_setInt8(osc_atom_array_u_get(ttarray, i), tt);
 			}
@@ -6219,7 +6235,8 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 
 		int i;
 		for(i = 0; i < n; i++){
-			char tt = osc_atom_u_getInt8(osc_atom_array_u_get(ttarray, i));
+			char tt = osc_expr_explicitCast_getTypetag(osc_atom_array_u_get(ttarray, i));
+			int ret = 0;
 			switch(tt){
 			case 'c':
 				osc_expr_explicitCast_int8(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
@@ -6252,12 +6269,22 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 				osc_expr_explicitCast_float64(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
 				break;
 			case 's':
-				osc_expr_explicitCast_string(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
+				ret = osc_expr_explicitCast_string(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
 				break;
 			case 'b':
-				osc_expr_explicitCast_blob(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
+				ret = osc_expr_explicitCast_blob(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
+				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "cast: the typetags must be those of numbers, strings, or blobs");
+				ret = 1;
 				break;
 			}
+			if(ret){
+				if(alloc){
+					osc_atom_array_u_free(ttarray);
+				}
+				return ret;
+			}
 		}
 		if(alloc){
 			osc_atom_array_u_free(ttarray);
-- 
2.43.0


From 97baa77c93dd870b3d7aca18ba047daf3cbb5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 072/130] fix: casting a blob to a string read past the end of
 the blob

Property: C16
---
 osc_expr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index b52c904..06860bd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6148,7 +6148,15 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *s = NULL;
 	if(osc_atom_u_getTypetag(src) == 'b'){
 		char *b = osc_atom_u_getBlob(src);
-		osc_atom_u_setString(dest, b + 4);
+		if(!b){
+			return 1;
+		}
+		int32_t len = osc_atom_u_getBlobLen(src);
+		s = osc_mem_alloc(len + 1);
+		memcpy(s, b + 4, len);
+		s[len] = '\0';
+		osc_atom_u_setString(dest, s);
+		osc_mem_free(s);
 		return 0;
 	}else{
 		if(osc_atom_u_getTypetag(src) == 'c'){
-- 
2.43.0


From 5bcfa0dd656f40e638487411d498f25025c31cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 073/130] fix: bundle() of a blob read the blob's size as the
 start of the bundle and leaked a copy of the blob, and bytes that are not a
 bundle were read out of bounds

Property: C16
---
 osc_expr.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 06860bd..53d7419 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6617,11 +6617,13 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		if(n == 1){
 			t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
 			if(osc_atom_u_getTypetag(a) == 'b'){
-				int32_t len = 0;
-				char *ptr = NULL;
-				osc_atom_u_getBlobCopy(a, &len, &ptr);
-				len -= 4;
-				osc_atom_u_setBndl(aout, len, ptr);
+				int32_t len = osc_atom_u_getBlobLen(a);
+				char *ptr = osc_atom_u_getBlob(a);
+				if(!ptr || osc_error_bundleSanityCheck(len, ptr + 4)){
+					osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle(): the blob does not contain a bundle");
+					return 1;
+				}
+				osc_atom_u_setBndl(aout, len, ptr + 4);
 				return 0;
 			}else if(osc_atom_u_getTypetag(a) == 's'){
 				t_osc_bndl_u *b = osc_bundle_u_alloc();
@@ -6635,11 +6637,15 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			while(np % 4){
 				np++;
 			}
-			char buf[np];
+			char buf[np > 0 ? np : 1];
 			memset(buf, 0, np);
 			for(int i = 0; i < n; i++){
 				buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
 			}
+			if(osc_error_bundleSanityCheck(np, buf)){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle(): the list of bytes is not a bundle");
+				return 1;
+			}
 			osc_atom_u_setBndl(aout, np, buf);
 			return 0;
 		}
-- 
2.43.0


From a8086931a5f55fbbd4c612e547c2e7473932f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 074/130] fix: quickhull() of infinite coordinates recursed
 without end

Property: C16
---
 osc_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 53d7419..f787fcc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4618,7 +4618,7 @@ int _osc_expr_quickhull(int hulln, int *hull, int p1, int p2, int n, double *xs,
 			max = absd;
 		}
 	}
-	if(idx == -1){
+	if(idx == -1 || hull[idx]){
 		if(!hull[p1]){
 			hulln++;
 		}
@@ -4629,6 +4629,8 @@ int _osc_expr_quickhull(int hulln, int *hull, int p1, int p2, int n, double *xs,
 		hull[p2] = 1;
 		return hulln;
 	}
+	hull[idx] = 1;
+	hulln++;
 
 	hulln = _osc_expr_quickhull(hulln, hull, idx, p1, n, xs, ys, -osc_expr_qhwhichside(osc_expr_qhdist(xs[p1], ys[p1], xs[p2], ys[p2], xs[idx], ys[idx])));
 	hulln = _osc_expr_quickhull(hulln, hull, idx, p2, n, xs, ys, -osc_expr_qhwhichside(osc_expr_qhdist(xs[p2], ys[p2], xs[p1], ys[p1], xs[idx], ys[idx])));
-- 
2.43.0


From d525c65b8fc75a9dc32f83ff03269687f5e61a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 075/130] fix: apply(): report every error of an argument of a
 lambda and free what was bound

Property: C18
---
 osc_expr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f787fcc..b93d627 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -380,8 +380,14 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		for(int i = 0; (i < nparams) && arg; i++){
 			t_osc_atom_ar_u *atoms = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+			if(e){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+				}
+				if(atoms){
+					osc_atom_array_u_free(atoms);
+				}
+				osc_expr_destroyLexenv(lexenv_copy);
 				return e;
 			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
-- 
2.43.0


From 6030e0194859dc86eb0f4e62c7d15790f61d02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 076/130] fix: apply() of a function bound to a variable must
 not change the expression

Property: C18
---
 osc_expr.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index b93d627..c1c6d31 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -428,16 +428,16 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				// maybe we're in a lambda and should look it up in the lexenv
 				t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
 				if(osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
-					r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
-					t_osc_expr_arg *a = osc_expr_arg_alloc();
-					osc_expr_arg_setFunction(a, r);
-					osc_expr_arg_setNext(a, f_argv->next);
-					osc_expr_setArg(f, a);
-					int ret = osc_expr_specFunc_apply(f, lexenv, len, oscbndl, out, context);
-					//osc_expr_setArg(f, f_argv);
-					//osc_expr_arg_setNext(a, NULL);
-					//osc_expr_arg_free(a);
-					return ret;
+					// the function belongs to the binding, and the arguments to f
+					t_osc_expr_arg a;
+					memset(&a, '\0', sizeof(a));
+					osc_expr_arg_setFunction(&a, osc_atom_u_getRec(osc_atom_array_u_get(xx, 0)));
+					osc_expr_arg_setNext(&a, f_argv->next);
+					t_osc_expr e;
+					memset(&e, '\0', sizeof(e));
+					osc_expr_setRec(&e, osc_expr_getRec(f));
+					osc_expr_setArg(&e, &a);
+					return osc_expr_specFunc_apply(&e, lexenv, len, oscbndl, out, context);
 				}
 				//osc_atom_array_u_free(xx);
 			}
-- 
2.43.0


From 13569732e04124bfa4af99979599549b198d073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 077/130] fix: apply(): an expression or address that does not
 give a function is an error

Property: C18
---
 osc_expr.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index c1c6d31..f3d04fe 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -444,8 +444,13 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		}else{
 			t_osc_atom_ar_u *ar = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
+			if(e){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
+				}
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 				return e;
 			}
 			if(!ar){
@@ -454,10 +459,12 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			}
 			if(osc_atom_array_u_getLen(ar) != 1){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
 				//error
+				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			char *stp = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
@@ -493,7 +500,19 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					return ret;
 				}
 			}
+			if(!r){
+				osc_error_handler(context,
+						basename(__FILE__),
+					  __func__,
+					  __LINE__,
+					  OSC_ERR_EXPPARSE,
+					  "unrecognized function %s",
+					  stp);
+			}
 			osc_atom_array_u_free(ar);
+			if(!r){
+				return 1;
+			}
 		}
 		if(!r){
 			osc_error_handler(context,
-- 
2.43.0


From b20dde5f2c257aad7842780629665e6513bd3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 078/130] fix: apply() by name must check the number of
 arguments as a direct call does

Property: C18
---
 osc_expr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f3d04fe..0753bad 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -527,6 +527,16 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		t_osc_expr *e = osc_expr_alloc();
 		osc_expr_setRec(e, r);
 		osc_expr_setArg(e, f_argv->next);
+		long nargs = osc_expr_getArgCount(e);
+		int nreq = osc_expr_rec_getNumRequiredArgs(r);
+		int nopt = osc_expr_rec_getNumOptionalArgs(r);
+		if(nargs < nreq || (nopt >= 0 && nargs > nreq + nopt)){
+			osc_expr_err_argnum(context, nreq, nargs, nopt, osc_expr_rec_getName(r));
+			e->argc = 0;
+			e->argv = NULL;
+			osc_expr_free(e);
+			return 1;
+		}
 		int ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
 		e->argc = 0;
 		e->argv = NULL;
-- 
2.43.0


From 19fdba9a6f40bf2138c3bce5ee93a4744965aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 079/130] fix: copying an expression must copy its list
 arguments

Property: C18
---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 0753bad..8fe9101 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7092,6 +7092,9 @@ t_osc_err osc_expr_arg_copy(t_osc_expr_arg **dest, t_osc_expr_arg *src)
 			(*dest)->arg.func = copy;
 		}
 		break;
+	case OSC_EXPR_ARG_TYPE_LIST:
+		copy->arg.list = osc_atom_array_u_copy(src->arg.list);
+		break;
 	}
 	return OSC_ERR_NONE;
 }
-- 
2.43.0


From ff64593cd15668f2b692d985922a7d5121e1d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 080/130] fix: map(): report errors, and do not take string
 data for the name of a variable

Property: C18
---
 osc_expr.c | 58 ++++++++++++++++++++++--------------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8fe9101..f771a2b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -574,10 +574,12 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	t_osc_expr_arg *a = f_argv->next;
 	while(a){
 		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+			}
 			// assume whoever generated this will post an error
-			for(int j = 0; j < i; j++){
+			for(int j = 0; j <= i; j++){
 				if(args[j]){
 					osc_atom_array_u_free(args[j]);
 				}
@@ -600,51 +602,39 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	osc_expr_arg_copy(func_args, f_argv);
 	osc_expr_appendArg(e, *func_args);
 	for(i = 1; i < ac + 1; i++){
+		// the elements are passed in lists, because a string would be looked up in the lexenv
 		func_args[i] = osc_expr_arg_alloc();
+		osc_expr_arg_setList(func_args[i], osc_atom_array_u_alloc(1));
 		osc_expr_appendArg(e, func_args[i]);
 	}
 
-	t_osc_atom_ar_u *output[min];
-	memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
-	int outcount = 0;
-	for(i = 0; i < min; i++){
+	int ret = 0;
+	t_osc_atom_ar_u *result = osc_atom_array_u_alloc(0);
+	for(i = 0; i < min && !ret; i++){
 		int j;
 		for(j = 0; j < ac; j++){
-			osc_expr_arg_setOSCAtom(func_args[j + 1], osc_atom_array_u_get(args[j], i));
+			t_osc_atom_u *elem = osc_atom_array_u_get(func_args[j + 1]->arg.list, 0);
+			osc_atom_u_copyInto(&elem, osc_atom_array_u_get(args[j], i));
+		}
+		t_osc_atom_ar_u *output = NULL;
+		ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
+		if(output){
+			osc_atom_array_u_copyInto(&result, output, osc_atom_array_u_getLen(result));
+			osc_atom_array_u_free(output);
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
-		outcount += osc_atom_array_u_getLen(output[i]);
-	}
-	*out = osc_atom_array_u_alloc(outcount);
-	int pos = 0;
-	for(i = 0; i < min; i++){
-		osc_atom_array_u_copyInto(out, output[i], pos);
-		pos += osc_atom_array_u_getLen(output[i]);
 	}
-	e->argv = NULL;
-	e->argc = 0;
-	osc_expr_free(e);
-	e = NULL;
-	if(func_args[0]){
-		osc_expr_arg_free(func_args[0]);
+	if(ret){
+		osc_atom_array_u_free(result);
+	}else{
+		*out = result;
 	}
+	osc_expr_free(e); // and with it func_args
 	for(i = 0; i < ac; i++){
 		if(args[i]){
 			osc_atom_array_u_free(args[i]);
 		}
-		if(func_args[i + 1]){
-			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
-			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
-			osc_mem_free(func_args[i + 1]);
-		}
-	}
-	for(i = 0; i < min; i++){
-		if(output[i]){
-			osc_atom_array_u_free(output[i]);
-		}
 	}
-	return 0;
+	return ret;
 }
 
 static int osc_expr_specFunc_reduce(t_osc_expr *f,
-- 
2.43.0


From d2636ffd0127c6c261b6aa65da1b11ab31aaffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:26 +0000
Subject: [PATCH 081/130] fix: lreduce() and rreduce(): report errors, give the
 start value for an empty list, and do not take string data for the name of a
 variable

Property: C18
---
 osc_expr.c | 141 +++++++++++++++++++----------------------------------
 1 file changed, 51 insertions(+), 90 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f771a2b..879e1c4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -654,34 +654,35 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 	t_osc_expr *e = osc_expr_alloc();
 	osc_expr_setRec(e, r);
 
+	char *name = f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce";
 	int ac = 3;
 	t_osc_expr_arg *func_args[ac];  // function, arg1, arg2
 	func_args[0] = NULL;
 	osc_expr_arg_copy(func_args, f_argv);
 	osc_expr_appendArg(e, *func_args);
 	for(int i = 1; i < ac; i++){
+		// the elements are passed in lists, because a string would be looked up in the lexenv
 		func_args[i] = osc_expr_arg_alloc();
+		osc_expr_arg_setList(func_args[i], osc_atom_array_u_alloc(1));
 		osc_expr_appendArg(e, func_args[i]);
 	}
 
 	t_osc_atom_ar_u *args = NULL;
+	t_osc_atom_ar_u *acc = NULL;
 	t_osc_expr_arg *a = f_argv->next;
 	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-		for(int i = 0; i < ac; i++){
-			if(func_args[i]){
-				osc_expr_arg_free(func_args[i]);
-			}
+	if(!err && f_argc == 3){
+		a = a->next;
+		err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &acc, context);
+		if(!err && osc_atom_array_u_getLen(acc) == 0){
+			err = 1;
 		}
-		e->argv = NULL;
-		e->argc = 0;
-		osc_expr_free(e);
-		return err;
+	}
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), name);
+		}
+		goto cleanup;
 	}
 	int count = osc_atom_array_u_getLen(args);
 
@@ -696,90 +697,50 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		start = count - 1;
 	}
 
-	if(count == 0){
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-		if(args){
-			osc_atom_array_u_free(args);
+	if(acc){
+		// the start value is a single element
+		for(int i = 1; i < osc_atom_array_u_getLen(acc); i++){
+			osc_atom_u_clear(osc_atom_array_u_get(acc, i));
 		}
-	}else if(count == 1 && f_argc == 2){
-		*out = args;
+		osc_array_resize(acc, 1);
+	}else if(count > 0){
+		acc = osc_atom_array_u_alloc(1);
+		t_osc_atom_u *elem = osc_atom_array_u_get(acc, 0);
+		osc_atom_u_copyInto(&elem, osc_atom_array_u_get(args, start));
+		start += delta;
 	}else{
-		t_osc_atom_ar_u *output = NULL;
-		if(f_argc == 3){
-			t_osc_atom_ar_u *sc = NULL;
-			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
-			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-				if(args){
-					osc_atom_array_u_free(args);
-				}
-				for(int i = 0; i < ac; i++){
-					if(func_args[i]){
-						osc_expr_arg_free(func_args[i]);
-					}
-				}
-				e->argv = NULL;
-				e->argc = 0;
-				osc_expr_free(e);
-				return err;
-			}
-			if(sc){
-				t_osc_atom_u *acopy = NULL;
-				osc_atom_u_copyInto(&acopy, osc_atom_array_u_get(sc, 0));
-				osc_expr_arg_setOSCAtom(func_args[arg0], acopy);
-				if(sc){
-					osc_atom_array_u_free(sc);
-				}
-			}else{
-				//error
-				return 1;
-			}
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}else{
-			osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(args, start));
-			start += delta;
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-
-		for(int i = start; delta > 0 ? i < count : i >= 0; i += delta){
-			t_osc_atom_u *copy1 = NULL;
-			t_osc_atom_u *copy2 = NULL;
-			osc_atom_u_copyInto(&copy1, osc_atom_array_u_get(output, 0));
-			osc_atom_u_copyInto(&copy2, osc_atom_array_u_get(args, i));
-			osc_expr_arg_setOSCAtom(func_args[arg0], copy1);
-			osc_expr_arg_setOSCAtom(func_args[arg1], copy2);
-			osc_atom_array_u_free(output);
-			output = NULL;
-			osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-			osc_expr_arg_clear(func_args[arg0]);
-			osc_expr_arg_clear(func_args[arg1]);
+		acc = osc_atom_array_u_alloc(0);
+	}
+
+	for(int i = start; i >= 0 && i < count; i += delta){
+		if(osc_atom_array_u_getLen(acc) == 0){
+			osc_error(context, OSC_ERR_EXPR_EVAL, "%s: the function did not return a value", name);
+			err = 1;
+			goto cleanup;
 		}
-		*out = output;
-		if(args){
-			osc_atom_array_u_free(args);
+		t_osc_atom_u *elem0 = osc_atom_array_u_get(func_args[arg0]->arg.list, 0);
+		t_osc_atom_u *elem1 = osc_atom_array_u_get(func_args[arg1]->arg.list, 0);
+		osc_atom_u_copyInto(&elem0, osc_atom_array_u_get(acc, 0));
+		osc_atom_u_copyInto(&elem1, osc_atom_array_u_get(args, i));
+		osc_atom_array_u_free(acc);
+		acc = NULL;
+		err = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &acc, context);
+		if(err){
+			goto cleanup;
 		}
 	}
+	*out = acc;
+	acc = NULL;
 
-	e->argv = NULL;
-	e->argc = 0;
-	osc_expr_free(e);
-
-	if(func_args[0]){
-		osc_expr_arg_free(func_args[0]);
+cleanup:
+	if(acc){
+		osc_atom_array_u_free(acc);
 	}
-	for(int i = 1; i < ac; i++){
-		if(func_args[i]){
-			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
-			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
-			osc_mem_free(func_args[i]);
-		}
+	if(args){
+		osc_atom_array_u_free(args);
 	}
-	return 0;
+	osc_expr_free(e); // and with it func_args
+	return err;
 }
 
 static int osc_expr_specFunc_assign(t_osc_expr *f,
-- 
2.43.0


From 98fd472d2bff6a580cb3dc504f7e8c629487aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 082/130] fix: andalso and orelse must free the left operand
 when it is an error

Property: C20
---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 879e1c4..d6c5f46 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2938,7 +2938,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
-		return ret;
+		goto out;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
 	if(lhstt == 'T' || lhstt == 'F'){
@@ -2996,7 +2996,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
-		return ret;
+		goto out;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
 	if(lhstt == 'T' || lhstt == 'F'){
-- 
2.43.0


From 631888e6c665cbd16aa60d6aa2b6746fc6f041cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 083/130] fix: tokenize(): lists of 64 tokens or more wrote
 through a null pointer

Property: C18
---
 osc_expr.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d6c5f46..dd65c97 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1998,10 +1998,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	int startcond = START_EXPNS, started = 0;
 	int ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	while(ret){
-		if(i == n){
-			n += 64;
-			osc_array_resize(*ar, n);
-		}
 		char *st = NULL;
 		switch(ret){
 		case START_EXPNS:
@@ -2048,7 +2044,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "!=";
 			break;
 		case OSC_EXPR_EQ:
-			st = "=";
+			st = "==";
 			break;
 		case OSC_EXPR_GTE:
 			st = ">=";
@@ -2086,6 +2082,10 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 		osc_atom_u_nformat(fmt, len + 1, osc_atom_array_u_get(*ar, i), 0);
 		//osc_atom_u_format(osc_atom_array_u_get(*ar, i), &len, &fmt);
 		i++;
+		if(i == n){
+			n += 64;
+			osc_array_resize(*ar, n);
+		}
 		//yylval_param.atom = (t_osc_atom_u *)(((long)out) + (i * atomsize));
 	cont:
 		yylval_param.atom = osc_atom_array_u_get(*ar, i);
-- 
2.43.0


From 8242501cc4987e80560c61e345354105f5c2c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 084/130] fix: tokenize() must free what it allocates, and
 report every error of its argument

Property: C20
---
 osc_expr.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index dd65c97..0c5d218 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1605,25 +1605,33 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 	char *expr = NULL;
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "tokenize");
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "tokenize");
+		}
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
 		return err;
 	}
 	if(arg){
+		char *joined = NULL;
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
 			expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
 		}else{
 			long buflen = 0;
-			osc_atom_array_u_getStringArray(arg, &buflen, &expr, " ");
+			osc_atom_array_u_getStringArray(arg, &buflen, &joined, " ");
+			expr = joined;
 		}
 		if(expr){
-			t_osc_err e = osc_expr_lex(expr, out);
-			if(e){
-				return e;
-			}
+			err = osc_expr_lex(expr, out);
+		}
+		if(joined){
+			osc_mem_free(joined);
 		}
+		osc_atom_array_u_free(arg);
 	}
-	return 0;
+	return err;
 }
 
 static int osc_expr_specFunc_compile(t_osc_expr *f,
@@ -2077,10 +2085,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			//osc_atom_u_setString((t_osc_atom_u *)(((long)out) + (i * atomsize)), st);
 			osc_atom_u_setString(osc_atom_array_u_get(*ar, i), st);
 		}
-		long len = osc_atom_u_nformat(NULL, 0, osc_atom_array_u_get(*ar, i), 0);
-		char *fmt = osc_mem_alloc(len + 1);
-		osc_atom_u_nformat(fmt, len + 1, osc_atom_array_u_get(*ar, i), 0);
-		//osc_atom_u_format(osc_atom_array_u_get(*ar, i), &len, &fmt);
 		i++;
 		if(i == n){
 			n += 64;
@@ -2096,6 +2100,10 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	osc_array_resize(*ar, i);
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		// an unfinished quoted string
+		osc_mem_free(buf);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 4f774057296ac98c39377c2424ca46195ed75079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 085/130] fix: eval() must report every error of its argument

Property: C18
---
 osc_expr.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0c5d218..dd250df 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1511,8 +1511,13 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "eval");
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "eval");
+		}
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
 		return err;
 	}
 	if(arg){
@@ -1576,7 +1581,7 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 		osc_atom_array_u_free(arg);
 	}else{
 		char *a = osc_expr_arg_getOSCAddress(f_argv);
-		if(a){
+		if(a && osc_expr_funcobj_ht){
 			t_osc_expr *e = osc_hashtab_lookup(osc_expr_funcobj_ht, strlen(a), a);
 			if(e){
 				t_osc_atom_ar_u *ar = NULL;
-- 
2.43.0


From a6462bf51100cb82fd7d1c53c360d9a5c82ed3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 086/130] fix: value() must report every error of its argument

Property: C18
---
 osc_expr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index dd250df..a247c34 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1431,8 +1431,13 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
+	if(err){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
+		}
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
 		return err;
 	}
 	if(arg){
-- 
2.43.0


From f59184e6e1f4fcad7d5929ee9b68310880370779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 087/130] fix: lambda: an item of the body that is not a call
 must not take the items after it as arguments

Property: C18
---
 osc_expr_parser.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 8a69709..db5578d 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -866,8 +866,10 @@ function:
 			}else{
 				t_osc_expr *e = osc_expr_alloc();
 				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
+				t_osc_expr_arg *next = osc_expr_arg_next(aaa);
+				osc_expr_arg_setNext(aaa, NULL);
 				osc_expr_prependArg(e, aaa);
-				aaa = osc_expr_arg_next(aaa);
+				aaa = next;
 				osc_expr_appendExpr(exprlist, e);
 			}
 			/*
-- 
2.43.0


From 0def1283641842bb0849a8bb854ea570edb03ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:54 +0000
Subject: [PATCH 088/130] fix: lambda: an item of the body that is not a call
 was leaked

Property: C20
---
 osc_expr_parser.y | 55 +++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index db5578d..347fa15 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -838,13 +838,10 @@ function:
 		}else{
 			t_osc_expr *e = osc_expr_alloc();
 			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
+			t_osc_expr_arg *next = osc_expr_arg_next(aaa);
+			osc_expr_arg_setNext(aaa, NULL);
+			osc_expr_prependArg(e, aaa);
+			aaa = next;
 			exprlist = e;
 		}
 
@@ -959,13 +956,10 @@ function:
 		}else{
 			t_osc_expr *e = osc_expr_alloc();
 			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
+			t_osc_expr_arg *next = osc_expr_arg_next(aaa);
+			osc_expr_arg_setNext(aaa, NULL);
+			osc_expr_prependArg(e, aaa);
+			aaa = next;
 			exprlist = e;
 		}
 		int i = 1;
@@ -986,13 +980,10 @@ function:
 			}else{
 				t_osc_expr *e = osc_expr_alloc();
 				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
+				t_osc_expr_arg *next = osc_expr_arg_next(aaa);
+				osc_expr_arg_setNext(aaa, NULL);
+				osc_expr_prependArg(e, aaa);
+				aaa = next;
 				osc_expr_appendExpr(exprlist, e);
 			}
 			/*
@@ -1061,13 +1052,10 @@ function:
 		}else{
 			t_osc_expr *e = osc_expr_alloc();
 			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
+			t_osc_expr_arg *next = osc_expr_arg_next(aaa);
+			osc_expr_arg_setNext(aaa, NULL);
+			osc_expr_prependArg(e, aaa);
+			aaa = next;
 			exprlist = e;
 		}
 		int i = 1;
@@ -1088,13 +1076,10 @@ function:
 			}else{
 				t_osc_expr *e = osc_expr_alloc();
 				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
+				t_osc_expr_arg *next = osc_expr_arg_next(aaa);
+				osc_expr_arg_setNext(aaa, NULL);
+				osc_expr_prependArg(e, aaa);
+				aaa = next;
 				osc_expr_appendExpr(exprlist, e);
 			}
 			/*
-- 
2.43.0


From ffec2a8856cb267afb1ff48eaade235b3b92f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 089/130] fix: a syntax error must not leak what was parsed,
 nor give a partial program

Property: C20
---
 osc_expr_parser.y | 73 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 347fa15..634fef6 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -205,6 +205,10 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 		}
 	}
 	//osc_expr_parser_foldConstants(exprstack);
+	if(ret){
+		osc_expr_free(exprstack);
+		exprstack = NULL;
+	}
 	*f = exprstack;
 	if(alloc){
 		osc_mem_free(ptr);
@@ -245,6 +249,10 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 		// an unfinished quoted string
 		osc_mem_free(buf);
 	}
+	if(ret){
+		// the parser destroyed what it had made
+		*f = NULL;
+	}
 	return ret;
 }
 
@@ -675,6 +683,24 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 %token START_EXPNS START_FUNCTION
 %start start
 
+// what is on the stack when there is an error
+%destructor { osc_atom_u_free($$); } OSC_EXPR_NUM OSC_EXPR_STRING OSC_EXPR_OSCADDRESS OSC_EXPR_QUOTED_EXPR
+%destructor {
+	t_osc_atom_u *a = $$;
+	while(a){
+		t_osc_atom_u *next = a->next;
+		osc_atom_u_free(a);
+		a = next;
+	}
+} parameters parameter
+%destructor { osc_expr_free($$); } <expr>
+%destructor { osc_expr_arg_freeList($$); } <arg>
+%destructor {
+	t_osc_expr *e = NULL;
+	osc_expr_rec_free($$, (void **)&e);
+	osc_expr_free(e);
+} <func>
+
 %%
 
 start: START_EXPNS expns
@@ -708,7 +734,7 @@ expns:  {
  	}
 	| expns ',' {
         	osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", NULL, NULL);
-        	return 1;
+        	YYABORT;
  	}
 	| OSC_EXPR_OSCADDRESS {
 		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 1);
@@ -1190,7 +1216,8 @@ expr:
 								     $3);
 		if(!e){
 			osc_atom_u_free($1);
-			return 1;
+			osc_expr_arg_freeList($3);
+			YYABORT;
 		}
 		$$ = e;
 		osc_atom_u_free($1);
@@ -1199,14 +1226,16 @@ expr:
         char *ptr = NULL;
         osc_atom_u_getString($1, 0, &ptr);
         osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", ptr, ptr);
+        osc_mem_free(ptr);
         osc_atom_u_free($1);
-        return 1;
+        osc_expr_arg_freeList($3);
+        YYABORT;
     }
 	| OSC_EXPR_STRING '(' ')' %prec OSC_EXPR_FUNC_CALL {
 		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), NULL);
 		if(!e){
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		$$ = e;
 		osc_atom_u_free($1);
@@ -1361,7 +1390,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1373,7 +1402,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($2);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($2);
 		$$ = e;
@@ -1386,7 +1415,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1398,7 +1427,7 @@ expr:
 		if(!e){
 			osc_mem_free(copy);
 			osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		osc_atom_u_free($1);
 		$$ = e;
@@ -1417,7 +1446,7 @@ expr:
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
             osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 		osc_expr_arg_setOSCAddress(arg, ptr);
@@ -1430,7 +1459,7 @@ expr:
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
             osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 		t_osc_expr_arg *indexes = $3;
@@ -1469,7 +1498,7 @@ expr:
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
             osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 
@@ -1491,7 +1520,7 @@ expr:
 		if(*ptr != '/'){
 			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
             osc_atom_u_free($1);
-			return 1;
+			YYABORT;
 		}
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
 
@@ -1568,7 +1597,9 @@ expr:
 		// /foo ?? 10 means /foo if /foo is in the bundle, otherwise 10
 		t_osc_expr *if_expr = osc_expr_parser_reduce_NullCoalescingOperator(context, &yylloc, input_string, $1, $3);
 		if(!if_expr){
-			return 1;
+			osc_atom_u_free($1);
+			osc_expr_arg_freeList($3);
+			YYABORT;
 		}
 		char *ptr = NULL;
 		osc_atom_u_getString($1, 0, &ptr);
@@ -1625,24 +1656,32 @@ expr:
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 ;
-- 
2.43.0


From 85268bc13ffbb5223a6c6781166945c69129778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 090/130] fix: eval() of text that does not parse must give an
 error code

Property: C18
---
 osc_expr.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index a247c34..c4af296 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1530,17 +1530,16 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 			char *expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
 			t_osc_expr *f = NULL;
 			OSC_PROFILE_TIMER_START(foo);
-			osc_expr_parser_parseExpr(expr, &f, context);
+			int ret = osc_expr_parser_parseExpr(expr, &f, context);
 			OSC_PROFILE_TIMER_STOP(foo);
 			OSC_PROFILE_TIMER_PRINTF(foo);
 			OSC_PROFILE_TIMER_SNPRINTF(foo, buff);
 #ifdef __OSC_PROFILE__
 			printf("%s\n", buff);
 #endif
-			int ret = 0;
 			*out = osc_atom_array_u_alloc(1);
 
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), 0);
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
 			t_osc_expr *ff = f;
 			while(ff){
 				t_osc_atom_ar_u *ar = NULL;
@@ -1560,11 +1559,10 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 			char *buf = NULL;
 			osc_atom_array_u_getStringArray(arg, &buflen, &buf, " ");
 			t_osc_expr *f = NULL;
-			osc_expr_parser_parseExpr(buf, &f, context);
-			int ret = 0;
+			int ret = osc_expr_parser_parseExpr(buf, &f, context);
 			*out = osc_atom_array_u_alloc(1);
 
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), 0);
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
 			t_osc_expr *ff = f;
 			while(ff){
 				t_osc_atom_ar_u *ar = NULL;
-- 
2.43.0


From 922ea3202b40cecb272d8126ccfb8d5a9a69bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 091/130] fix: getting a member of a bundle must free what it
 used and report errors

Property: C18
---
 osc_expr.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index c4af296..73a5434 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1743,10 +1743,15 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 					     t_osc_atom_ar_u **out,
 		 					 void *context)
 {
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
-	osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
-	if(!arg1){
+	if(osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context) || !arg1){
+		if(arg1){
+			osc_atom_array_u_free(arg1);
+		}
 		return 1;
 	}
 	long bndl_len_s = 0;
@@ -1767,6 +1772,7 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 			osc_bundle_s_free(b);
 			osc_message_array_s_free(msgar);
 		}else{
+			osc_atom_array_u_free(arg1);
 			return OSC_ERR_EXPR_ADDRESSUNBOUND;
 		}
 	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
@@ -1794,32 +1800,36 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 			}else{
 				ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
 			}
-			if(a){
+			if(a && !ret){
 				t_osc_expr_arg *arg = osc_expr_arg_alloc();
 				char *st = NULL;
 				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
 				osc_expr_arg_setOSCAddress(arg, st);
 				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
-				osc_atom_array_u_free(a);
 				osc_expr_arg_free(arg);
-			}else{
-				return ret;
+			}else if(!ret){
+				ret = 1;
+			}
+			if(a){
+				osc_atom_array_u_free(a);
 			}
 		}else if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_STRING ||
 			 osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_ATOM){
 			osc_expr_arg_setType(f_argv->next, OSC_EXPR_ARG_TYPE_ATOM);
 			t_osc_atom_ar_u *a = NULL;
 			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
-			if(a){
+			if(a && !ret){
 				t_osc_expr_arg *arg = osc_expr_arg_alloc();
 				char *st = NULL;
 				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
 				osc_expr_arg_setOSCAddress(arg, st);
 				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
-				osc_atom_array_u_free(a);
 				osc_expr_arg_free(arg);
-			}else{
-				return ret;
+			}else if(!ret){
+				ret = 1;
+			}
+			if(a){
+				osc_atom_array_u_free(a);
 			}
 		}else{
 			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
@@ -1828,6 +1838,7 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 		osc_atom_array_u_free(arg1);
 				return ret;
 	}
+	osc_atom_array_u_free(arg1);
 	return 1;
 }
 
-- 
2.43.0


From 37f81e94bc858f1716d46a2a5ee37e64760c9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 092/130] fix: assigning to a member of a bundle must free what
 it used and report errors

Property: C18
---
 osc_expr.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 73a5434..bf3842b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1849,10 +1849,17 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 						  t_osc_atom_ar_u **out,
 						  void *context )
 {
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
 
 	t_osc_err error = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+	if(error && arg1){
+		osc_atom_array_u_free(arg1);
+		return error;
+	}
 	if(!arg1){
 		// if arg1 is unbound, create a bundle with message arg2 : arg3
 		if( error == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_getArgCount(f) > 2 &&
@@ -1861,10 +1868,12 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			t_osc_bundle_u * b = osc_bundle_u_alloc();
 			osc_message_u_appendBndl_u(m, b);
             
-			osc_bundle_s_appendMessage(len, oscbndl, osc_message_u_serialize(m) );
-            
+			t_osc_msg_s *ms = osc_message_u_serialize(m);
+			osc_bundle_s_appendMessage(len, oscbndl, ms);
+			osc_message_s_deepFree(ms);
+
 			arg1 = osc_message_u_getArgArrayCopy(m);
-            
+			osc_message_u_free(m);
 		}else{
 			return 1;
 		}
@@ -1901,9 +1910,17 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		osc_expr_setRec(assign, r);
 
 		t_osc_atom_array_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
-		int ret = 0;
-		if(!ar){
+		int ret = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
+		if(ret || !ar){
+			if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assigntobundlemember");
+			}
+			if(!ret){
+				ret = 1;
+			}
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 			goto cleanup;
 		}
 		t_osc_expr_arg *target = NULL;
@@ -1999,6 +2016,7 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		return ret;
 	}
 
+	osc_atom_array_u_free(arg1);
 	return 1;
 }
 
-- 
2.43.0


From c8741274273596a07b6672f76e47f6257a735af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 093/130] fix: gettimetag() and settimetag() need a bundle

Property: C18
---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index bf3842b..69134ac 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1705,6 +1705,9 @@ static int osc_expr_specFunc_gettimetag(t_osc_expr *f,
 			    t_osc_atom_ar_u **out,
 					void *context)
 {
+	if(!len || !oscbndl){
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 	t_osc_atom_u *a = osc_atom_array_u_get(*out, 0);
 	osc_atom_u_setTimetag(a, osc_bundle_s_getTimetag(*len, *oscbndl));
@@ -1718,6 +1721,9 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 			    t_osc_atom_ar_u **out,
 					void *context)
 {
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-- 
2.43.0


From 2f20310b8907809469fb3c46a5a9d25116796bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 094/130] fix: compile() leaked its strings, and copied an
 expression over the call

Property: C18
---
 osc_expr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 69134ac..e72cffc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1665,7 +1665,7 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 		t_osc_atom_ar_u *arg = NULL;
 		t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &arg, context);
 		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "compile");
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "compile");
 			osc_mem_free(key);
 			return err;
 		}
@@ -1681,9 +1681,9 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 		osc_atom_array_u_free(arg);
 	}else if(arg2type == OSC_EXPR_ARG_TYPE_EXPR){
 		// 2nd arg is an expr
-		osc_expr_copy(&f, osc_expr_arg_getExpr(f_argv->next));
+		osc_expr_copy(&thisf, osc_expr_arg_getExpr(f_argv->next));
 	}else{
-		// free mem here
+		osc_mem_free(key);
 		return 1;
 	}
 	if(thisf){
@@ -1691,6 +1691,8 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 			osc_expr_funcobj_ht = osc_hashtab_new(-1, osc_expr_funcobj_dtor);
 		}
 		osc_hashtab_store(osc_expr_funcobj_ht, keylen, key, thisf);
+	}else{
+		osc_mem_free(key);
 	}
 	if(expression){
 		osc_mem_free(expression);
-- 
2.43.0


From 5d592b92b2e20f7be7690519605d91fea200c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:31 +0000
Subject: [PATCH 095/130] fix: a function cannot be stored in a bundle, and
 cannot outlive the text it was written in

Property: C18
---
 osc_expr.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index e72cffc..8298b12 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -336,6 +336,19 @@ t_osc_err osc_expr_evalArgInLexEnv(t_osc_expr_arg *arg,
 // Special functions
 //////////////////////////////////////////////////
 
+// A function is an atom that only refers to the expression it was written in, so it can't be put in a
+// bundle, nor returned by something that's about to free that expression.
+static int osc_expr_hasFunction(t_osc_atom_ar_u *ar)
+{
+	long n = osc_atom_array_u_getLen(ar);
+	for(long i = 0; i < n; i++){
+		if(osc_atom_u_getRec(osc_atom_array_u_get(ar, i))){
+			return 1;
+		}
+	}
+	return 0;
+}
+
 static int osc_expr_specFunc_apply(t_osc_expr *f,
 			    t_osc_expr_lexenv *lexenv,
 			    long *len,
@@ -495,6 +508,12 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					osc_expr_arg_setFunction(osc_expr_getArgs(e), r);
 
 					int ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
+					if(!ret && *out && osc_expr_hasFunction(*out)){
+						osc_error(context, OSC_ERR_EXPR_EVAL, "a function written as text can't return a function");
+						osc_atom_array_u_free(*out);
+						*out = NULL;
+						ret = OSC_ERR_EXPR_EVAL;
+					}
 					osc_expr_free(e);
 					osc_atom_array_u_free(ar);
 					return ret;
@@ -858,6 +877,14 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 	}
     
     
+    if(osc_expr_hasFunction(*out)){
+        osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s : a function can't be assigned to an address", address);
+        osc_mem_free(address);
+        osc_message_u_free(mm);
+        osc_atom_array_u_free(*out);
+        *out = NULL;
+        return OSC_ERR_EXPR_ARGCHK;
+    }
     long natoms = osc_atom_array_u_getLen(*out);
 	for( int i = 0; i < natoms; i++ )
     {
@@ -964,6 +991,11 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         if(err){
             goto bail;
         }
+        if(osc_expr_hasFunction(data)){
+            osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s : a function can't be assigned to an address", osc_expr_arg_getOSCAddress(f_argv));
+            err = OSC_ERR_EXPR_ARGCHK;
+            goto bail;
+        }
         int ndata = osc_atom_array_u_getLen(data);
         if(nindexes == 0 || ndata == 0){
             err = 1;
@@ -6703,6 +6735,14 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			}
 			t_osc_msg_u *m = osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(aa));
 			if(i + 1 < argc){
+				if(osc_expr_hasFunction(argv[i + 1])){
+					osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle(): a function can't be put in a bundle");
+					osc_message_u_free(m);
+					osc_bundle_u_free(b);
+					osc_atom_array_u_free(*out);
+					*out = NULL;
+					return OSC_ERR_EXPR_ARGCHK;
+				}
 				for(int j = 0; j < osc_atom_array_u_getLen(argv[i + 1]); j++){
 					osc_message_u_appendAtom(m, osc_atom_u_copy(osc_atom_array_u_get(argv[i + 1], j)));
 				}
-- 
2.43.0


From 925d2ed55d0047f3eacb117ce631be59b17c3362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:54 +0000
Subject: [PATCH 096/130] fix: assigning to a member evaluates the value first,
 and leaves the bundle alone if that fails

Property: C18
---
 osc_expr.c | 56 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8298b12..f853c96 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1893,16 +1893,41 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
+	if(osc_expr_getArgCount(f) < 3){
+		return 1;
+	}
 	t_osc_atom_ar_u *arg1 = NULL;
 
+	// the value first: evaluating it may change the bundle, and nothing is assigned if it fails
+	t_osc_atom_ar_u *ar = NULL;
+	t_osc_err verror = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
+	if(verror){
+		if(verror == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assigntobundlemember");
+		}
+		if(ar){
+			osc_atom_array_u_free(ar);
+		}
+		return verror;
+	}
+	if(!ar){
+		ar = osc_atom_array_u_alloc(0);
+	}
+	if(osc_expr_hasFunction(ar)){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "a function can't be assigned to an address");
+		osc_atom_array_u_free(ar);
+		return OSC_ERR_EXPR_ARGCHK;
+	}
+
 	t_osc_err error = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
 	if(error && arg1){
 		osc_atom_array_u_free(arg1);
+		osc_atom_array_u_free(ar);
 		return error;
 	}
 	if(!arg1){
 		// if arg1 is unbound, create a bundle with message arg2 : arg3
-		if( error == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_getArgCount(f) > 2 &&
+		if( error == OSC_ERR_EXPR_ADDRESSUNBOUND &&
 		    f_argv->type == OSC_EXPR_ARG_TYPE_OSCADDRESS && f_argv->next->type == OSC_EXPR_ARG_TYPE_OSCADDRESS ){
 			t_osc_msg_u *m = osc_message_u_allocWithAddress( f_argv->arg.osc_address );
 			t_osc_bundle_u * b = osc_bundle_u_alloc();
@@ -1915,6 +1940,7 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			arg1 = osc_message_u_getArgArrayCopy(m);
 			osc_message_u_free(m);
 		}else{
+			osc_atom_array_u_free(ar);
 			return 1;
 		}
 	}
@@ -1949,33 +1975,12 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		t_osc_expr_rec *r = osc_expr_lookupFunction("assign");
 		osc_expr_setRec(assign, r);
 
-		t_osc_atom_array_u *ar = NULL;
-		int ret = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
-		if(ret || !ar){
-			if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assigntobundlemember");
-			}
-			if(!ret){
-				ret = 1;
-			}
-			if(ar){
-				osc_atom_array_u_free(ar);
-			}
-			goto cleanup;
-		}
+		int ret = 0;
 		t_osc_expr_arg *target = NULL;
 		osc_expr_arg_copy(&target, f_argv->next);
 		t_osc_expr_arg *val = osc_expr_arg_alloc();
-		if(osc_atom_array_u_getLen(ar) == 1){
-			t_osc_atom_u *copy = osc_atom_u_alloc();
-			osc_atom_u_copyInto(&copy, osc_atom_array_u_get(ar, 0));
-			osc_expr_arg_setOSCAtom(val, copy);
-			osc_atom_array_u_free(ar);
-		}else{
-			t_osc_atom_ar_u *copy = osc_atom_array_u_copy(ar);
-			osc_expr_arg_setList(val, copy);
-			osc_atom_array_u_free(ar);
-		}
+		// in a list, because a string would be looked up in the lexenv
+		osc_expr_arg_setList(val, ar);
 		osc_expr_arg_append(target, val);
 		osc_expr_setArg(assign, target);
 		ret = osc_expr_specFunc_assign(assign, lexenv, &bndl_len_s, &bndl_s, out, context);
@@ -2056,6 +2061,7 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		return ret;
 	}
 
+	osc_atom_array_u_free(ar);
 	osc_atom_array_u_free(arg1);
 	return 1;
 }
-- 
2.43.0


From 23a273fe5c9bc87ce4fdd5635243ed10a0ae8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 097/130] fix: long strings and lists must not be built on the
 stack

Property: C15
---
 osc_expr.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f853c96..438c718 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2414,9 +2414,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	if(tt1 == 's' && tt2 == 's'){
 		char *sp1 = osc_atom_u_getStringPtr(f1);
 		char *sp2 = osc_atom_u_getStringPtr(f2);
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1);
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 	}else if(tt1 == 's' && OSC_TYPETAG_ISNUMERIC(tt2)){
 		char *sp1 = osc_atom_u_getStringPtr(f1);
 		char *sp2 = NULL;
@@ -2424,9 +2425,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(!sp2){
 			return 0;
 		}
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1);
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 		osc_mem_free(sp2);
 	}else if(tt2 == 's' && OSC_TYPETAG_ISNUMERIC(tt1)){
 		char *sp2 = osc_atom_u_getStringPtr(f2);
@@ -2435,9 +2437,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(!sp1){
 			return 0;
 		}
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1);
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 		osc_mem_free(sp1);
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
@@ -5348,7 +5351,7 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
             return 1;
         long len = strlen(str);
         
-        char buf[numchars+1];
+        char *buf = osc_mem_alloc(numchars + 1);
         for( j = 0; j < numchars; j++ )
         {
             int pos = osc_atom_u_getInt32(osc_atom_array_u_get(argv[0], j));
@@ -5359,12 +5362,14 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
             else
             {
                 osc_error(context, OSC_ERR_EXPR_ARGCHK, "char index out of range.");
+                osc_mem_free(buf);
                 osc_mem_free(str);
                 return 1;
             }
         }
         buf[numchars] = '\0';
         osc_atom_u_setString(osc_atom_array_u_get(*out, i), buf );
+        osc_mem_free(buf);
         osc_mem_free(str);
     }
     return 0;
@@ -6716,16 +6721,18 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			while(np % 4){
 				np++;
 			}
-			char buf[np > 0 ? np : 1];
+			char *buf = osc_mem_alloc(np > 0 ? np : 1);
 			memset(buf, 0, np);
 			for(int i = 0; i < n; i++){
 				buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
 			}
 			if(osc_error_bundleSanityCheck(np, buf)){
 				osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle(): the list of bytes is not a bundle");
+				osc_mem_free(buf);
 				return 1;
 			}
 			osc_atom_u_setBndl(aout, np, buf);
+			osc_mem_free(buf);
 			return 0;
 		}
 	}else{
@@ -7536,12 +7543,14 @@ void osc_expr_formatFunctionTable(long *buflen, char **buf)
 static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, int argnum, t_osc_atom_u *left, t_osc_atom_u *right)
 {
 	long len = osc_atom_u_nformat(NULL, 0, left, 0);
-	char leftstr[len + 1];
+	char *leftstr = osc_mem_alloc(len + 1);
 	osc_atom_u_nformat(leftstr, len + 1, left, 0);
 	len = osc_atom_u_nformat(NULL, 0, right, 0);
-	char rightstr[len + 1];
+	char *rightstr = osc_mem_alloc(len + 1);
 	osc_atom_u_nformat(rightstr, len + 1, right, 0);
  	osc_error(context, OSC_ERR_EXPR_ARGCHK, "bad argument for expression %s %s %s. arg %d is a %s", leftstr, func, rightstr, argnum, osc_typetag_str(typetag));
+	osc_mem_free(leftstr);
+	osc_mem_free(rightstr);
 }
 
 static void osc_expr_err_unbound(void *context, char *address, char *func)
-- 
2.43.0


From 41bfda82aacfa23a53ebf52cb8dc90e4b5bb4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 098/130] fix: an unfinished string or quote() and a stray
 character are syntax errors

Property: C19
---
 osc_expr_scanner.l | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index ad7568b..8459623 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -160,7 +160,9 @@ quote[[:space:]]*\( {
     
     if( np != 0 )
     {
-        return 0;
+        // not a token of the grammar: an unfinished quote() is a syntax error
+        BEGIN(0);
+        return '\"';
     }
 
 	yyless(end - start);
@@ -226,6 +228,12 @@ quote[[:space:]]*\( {
 	}
 }
 
+<quote,quote_function><<EOF>> {
+	// not a token of the grammar: an unfinished string or quote() is a syntax error
+	BEGIN(0);
+	return '\"';
+}
+
 \"\" {
 	if(alloc_atom){
 		yylval->atom = osc_atom_u_alloc();
@@ -339,6 +347,11 @@ lambda				{
 
 [ \t\n]+	/* eat up whitespace */
 
+.					{
+						// a character that doesn't begin any token is a syntax error
+						return (unsigned char)*yytext;
+					}
+
 
 
 %%
-- 
2.43.0


From 824c697a184a6b219e1eb7a552db6b1a7ccd5063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 099/130] fix: assign_to_index() called by name needs an
 address

Property: C19
---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 438c718..9e0cf12 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -950,6 +950,10 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
+	if(osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "assign to index: the target must be an address");
+		return OSC_ERR_EXPR_ARGCHK;
+	}
 	t_osc_atom_ar_u *indexes = NULL;
 	t_osc_atom_ar_u *data = NULL;
     t_osc_err err = 0;
-- 
2.43.0


From c26969b9e11e305865d41f970c81fec7ae5b43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 100/130] fix: an escaped quotation mark after another
 backslash does not end a string

Property: C19
---
 osc_expr_scanner.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 8459623..0c32e41 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -55,7 +55,7 @@ dfc       (({frac}{exp_opt}{fsuff_opt})|({dseq}{exp}{fsuff_opt}))
 hfc       (({hpref}{hfrac}{bexp}{fsuff_opt})|({hpref}{hdseq}{bexp}{fsuff_opt}))
 c99_floating_point_constant  ({dfc}|{hfc})
 
-quoted_string [^\"\\]
+quoted_string ([^\"\\]|\\[^\"])
 oscaddress \/[^\+\-\*%\^!=\[\]:;,\?<>\&\|\\\{\}\(\)\"\'` \n\t]+
 reserved_chars \+|-|\*|\/|%|^|!|=|\[|\]|:|;|\?|<|>|\&|\||\\|\{|\}|\(|\)
 
@@ -180,7 +180,7 @@ quote[[:space:]]*\( {
 	BEGIN(quote);
 }
 
-<quote>[^\"]+ { 
+<quote>{quoted_string}+ { 
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
 		memcpy(*buf + *buflen, yytext, yyleng + 1);
@@ -212,7 +212,7 @@ quote[[:space:]]*\( {
 	}
 }
 
-<quote>{quoted_string}*\\. {
+<quote>{quoted_string}*\\\" {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng);
 		memcpy(*buf + *buflen, yytext, yyleng - 1);
@@ -347,7 +347,7 @@ lambda				{
 
 [ \t\n]+	/* eat up whitespace */
 
-.					{
+<INITIAL,quote>.				{
 						// a character that doesn't begin any token is a syntax error
 						return (unsigned char)*yytext;
 					}
-- 
2.43.0


From c462c0c9b0165e24e80de7d9b9f377c8f9dc8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 101/130] fix: text after a function leaked the function

Property: C20
---
 osc_expr_parser.y | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 634fef6..eac5e5c 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -241,6 +241,7 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 	char *buf = NULL;
 	int startcond = START_FUNCTION;
 	int started = 0;
+	*f = NULL;
 	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, f, scanner, ptr, &buflen, &buf, startcond, &started, context);
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
@@ -249,8 +250,11 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 		// an unfinished quoted string
 		osc_mem_free(buf);
 	}
-	if(ret){
-		// the parser destroyed what it had made
+	if(ret && *f){
+		// a function followed by something else
+		t_osc_expr *e = NULL;
+		osc_expr_rec_free(*f, (void **)&e);
+		osc_expr_free(e);
 		*f = NULL;
 	}
 	return ret;
@@ -704,7 +708,9 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 %%
 
 start: START_EXPNS expns
-       | START_FUNCTION function;
+       | START_FUNCTION function {
+		*rec = $2;
+	};
 
 expns:  {
 		if(*tmp_exprstack){
@@ -908,11 +914,6 @@ function:
 		osc_expr_rec_setExtra(func, exprlist);
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
@@ -1025,11 +1026,6 @@ function:
 		osc_expr_rec_setExtra(func, exprlist);
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
@@ -1121,11 +1117,6 @@ function:
 		osc_expr_rec_setExtra(func, exprlist);
 		//osc_expr_rec_setExtra(func, *tmp_exprstack);
 		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
 // go through and make sure the parameters are unique
 /*
 		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-- 
2.43.0


From 28e59e733a83c7a6a6db8af7ad353c9757f7a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:07 +0000
Subject: [PATCH 102/130] fix: the function catalogue is created on first use
 by several threads at once

Property: C21
---
 osc_expr.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9e0cf12..2078449 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7324,7 +7324,11 @@ void osc_expr_makeFunctionBundle(void)
 			osc_bundle_u_addMsg(b, m);
 		}
 	}
-	osc_expr_functionBundle = b;
+	t_osc_bndl_u *none = NULL;
+	if(!__atomic_compare_exchange_n(&osc_expr_functionBundle, &none, b, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)){
+		// another thread was faster
+		osc_bundle_u_free(b);
+	}
 }
 
 void osc_expr_makeCategoryBundle(void)
@@ -7341,16 +7345,21 @@ void osc_expr_makeCategoryBundle(void)
 	long len = osc_bundle_u_nserialize(NULL, 0, b);
 	char *ptr = osc_mem_alloc(len);
 	osc_bundle_u_nserialize(ptr, len, b);
-	osc_expr_categoryBundle = osc_bundle_s_alloc(len, ptr);
 	osc_bundle_u_free(b);
+	t_osc_bndl_s *s = osc_bundle_s_alloc(len, ptr);
+	t_osc_bndl_s *none = NULL;
+	if(!__atomic_compare_exchange_n(&osc_expr_categoryBundle, &none, s, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)){
+		// another thread was faster
+		osc_bundle_s_deepFree(s);
+	}
 }
 
 t_osc_bndl_s *osc_expr_getCategories(void)
 {
-	if(!osc_expr_categoryBundle){
+	if(!__atomic_load_n(&osc_expr_categoryBundle, __ATOMIC_ACQUIRE)){
 		osc_expr_makeCategoryBundle();
 	}
-	return osc_expr_categoryBundle;
+	return __atomic_load_n(&osc_expr_categoryBundle, __ATOMIC_ACQUIRE);
 }
 
 t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
@@ -7358,7 +7367,7 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	if(!cat){
 		return OSC_ERR_INVAL;
 	}
-	if(!osc_expr_functionBundle){
+	if(!__atomic_load_n(&osc_expr_functionBundle, __ATOMIC_ACQUIRE)){
 		osc_expr_makeFunctionBundle();
 	}
 	char buf[128];
@@ -7367,7 +7376,7 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	}else{
 		sprintf(buf, "%s", cat);
 	}
-	t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(osc_expr_functionBundle, buf, 0);
+	t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(__atomic_load_n(&osc_expr_functionBundle, __ATOMIC_ACQUIRE), buf, 0);
 	if(ar){
 		t_osc_bndl_u *bndl = osc_bundle_u_alloc();
 		osc_bundle_u_addMsgArrayCopy(bndl, ar);
-- 
2.43.0


From 1dab997203b9332524e50a4f0970a16c016d3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 103/130] fix: the documentation of nth() and quickhull() lists
 an optional argument without its type

Property: C22
---
 osc_expr_func.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 19645d5..baf513d 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1295,7 +1295,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (char *[]){"argument (list)", "index"},
 	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"additional indexes"},
-	 (int []){},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"/vector", NULL},
 	 "Get an element of a list (same as [[ ]])",
 	 osc_expr_nth,
@@ -2702,10 +2702,10 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 "/result = quickhull($1, $2)",
 	 1,
 	 1,
-	 (char *[]){"Address or list", "Address or list"},
-	 (int []){OSC_EXPR_ARG_TYPE_OSCADDRESS | OSC_EXPR_ARG_TYPE_LIST, OSC_EXPR_ARG_TYPE_OSCADDRESS | OSC_EXPR_ARG_TYPE_LIST},
-	 (char *[]){NULL},
-	 (int []){},
+	 (char *[]){"Address or list"},
+	 (int []){OSC_EXPR_ARG_TYPE_OSCADDRESS | OSC_EXPR_ARG_TYPE_LIST},
+	 (char *[]){"Address or list"},
+	 (int []){OSC_EXPR_ARG_TYPE_OSCADDRESS | OSC_EXPR_ARG_TYPE_LIST},
 	 (char *[]){"/statistics", NULL},
 	 "computes the convex hull of a set of points. points are expressed either as two arguments (xs and ys), or as a single interleaved list.",
 	 osc_expr_quickhull,
-- 
2.43.0


From 7a851e683ae6b5d974ff87f22261b01e99d344cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 104/130] fix: a description without argument types was an
 uninitialised string

Property: C22
---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index 2078449..241f39d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7489,6 +7489,7 @@ void osc_expr_formatTypes(int types, char *str)
 		return;
 	}
 	char *ptr = str;
+	*ptr = '\0';
 	char *fmt = "%s";
 	if(types & OSC_EXPR_ARG_TYPE_NUMBER){
 		ptr += sprintf(ptr, fmt, osc_expr_typestrings[types & OSC_EXPR_ARG_TYPE_NUMBER]);
-- 
2.43.0


From 4a66166915bdcb6d6a40ac62b67216c52cecc8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 105/130] fix: the name of a category can have any length

Property: C22
---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 241f39d..50e3133 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7370,7 +7370,7 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	if(!__atomic_load_n(&osc_expr_functionBundle, __ATOMIC_ACQUIRE)){
 		osc_expr_makeFunctionBundle();
 	}
-	char buf[128];
+	char buf[strlen(cat) + strlen("/doc/category") + 1];
 	if(strncmp(cat, "/doc/category", 13)){
 		sprintf(buf, "/doc/category%s", cat);
 	}else{
-- 
2.43.0


From 7c5ea67c883d53d452507552114922be6436e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 106/130] fix: osc_expr_rec_copy() copies every argument name
 and type

Property: C22
---
 osc_expr_rec.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/osc_expr_rec.c b/osc_expr_rec.c
index 7d6d909..70dd8a8 100644
--- a/osc_expr_rec.c
+++ b/osc_expr_rec.c
@@ -32,7 +32,7 @@ void osc_expr_rec_free(t_osc_expr_rec *r, void **extra)
 		osc_mem_free(r->required_args_names);
 	}
 	if(r->optional_args_names){
-		for(int i = 0; i < r->num_optional_args; i++){
+		for(int i = 0; i < abs(r->num_optional_args); i++){
 			if(r->optional_args_names[i]){
 				osc_mem_free(r->optional_args_names[i]);
 			}
@@ -101,9 +101,12 @@ void osc_expr_rec_copy(t_osc_expr_rec **dest, t_osc_expr_rec *src, void (*copy_e
 		}
 	}
 	if(src->optional_args_names){
-		c->optional_args_names = (char **)osc_mem_alloc(src->num_optional_args * sizeof(char *));
-		for(int i = 0; i < src->num_optional_args; i++){
+		// a negative number means any number of arguments sharing one description
+		int n = abs(src->num_optional_args);
+		c->optional_args_names = (char **)osc_mem_alloc(n * sizeof(char *));
+		for(int i = 0; i < n; i++){
 			if(!src->optional_args_names[i]){
+				c->optional_args_names[i] = NULL;
 				continue;
 			}
 			int len = strlen(src->optional_args_names[i]) + 1;
@@ -111,6 +114,16 @@ void osc_expr_rec_copy(t_osc_expr_rec **dest, t_osc_expr_rec *src, void (*copy_e
 			strncpy(c->optional_args_names[i], src->optional_args_names[i], len);
 		}
 	}
+	if(src->required_args_types){
+		c->required_args_types = (int *)osc_mem_alloc(src->num_required_args * sizeof(int));
+		memcpy(c->required_args_types, src->required_args_types, src->num_required_args * sizeof(int));
+	}
+	if(src->optional_args_types){
+		int n = abs(src->num_optional_args);
+		c->optional_args_types = (int *)osc_mem_alloc(n * sizeof(int));
+		memcpy(c->optional_args_types, src->optional_args_types, n * sizeof(int));
+	}
+	c->categories = src->categories;
 	c->num_required_args = src->num_required_args;
 	c->num_optional_args = src->num_optional_args;
 	c->func = src->func;
-- 
2.43.0


From 4870760c116944474368afe3993f6741da5a2d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:05 +0000
Subject: [PATCH 107/130] fix: bitand(), bitor() and bundle() were in no listed
 category

Property: C22
---
 osc_expr.c      | 2 +-
 osc_expr_func.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 50e3133..79d4c07 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -67,7 +67,7 @@ char *osc_expr_typestrings[] = {"", "number", "list", "", "string", "", "", "",
 
 #define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + 1 + 12 // commas, spaces, and null byte
 
-char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
+char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/math/bitwise", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
 
 // this gets created the first time it's needed and then it's never freed
 t_osc_bndl_u *osc_expr_functionBundle = NULL;
diff --git a/osc_expr_func.h b/osc_expr_func.h
index baf513d..a64fcd9 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -2718,7 +2718,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (int []){},
 	 (char *[]){NULL},
 	 (int []){},
-	 (char *[]){"", NULL},
+	 (char *[]){"/core", NULL},
 	 "makes a bundle from a list of bindings",
 	 osc_expr_bundle,
 	 NULL},
-- 
2.43.0


From d8c95c44e2f9f94dcedf10062708dc98ecb22f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:05 +0000
Subject: [PATCH 108/130] fix: the signatures of five functions named another
 function, or none that exists

Property: C22
---
 osc_expr_func.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index a64fcd9..91ee85a 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -598,7 +598,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (void *)osc_expr_lt},
 	//////////////////////////////////////////////////
 	{"le",
-	 "/result = lte($1, $2)",
+	 "/result = le($1, $2)",
 	 2,
 	 0,
 	 (char *[]){"arg 1", "arg 2"},
@@ -1445,7 +1445,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 NULL},
     //////////////////////////////////////////////////
     {"sortidx",
-        "/result = sortIndex($1)",
+        "/result = sortidx($1)",
         1,
         0,
         (char *[]){"List to be sorted"},
@@ -2043,7 +2043,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 NULL},
 	//////////////////////////////////////////////////
 	{"lreduce",
-	 "/result = reduce($1, $2)",
+	 "/result = lreduce($1, $2)",
 	 2,
 	 1,
 	 (char *[]){"Function or function name", "OSC address or list to reduce"},
@@ -2056,7 +2056,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 NULL},
 	//////////////////////////////////////////////////
 	{"rreduce",
-	 "/result = reduce($1, $2)",
+	 "/result = rreduce($1, $2)",
 	 2,
 	 1,
 	 (char *[]){"Function or function name", "OSC address or list to reduce"},
@@ -2723,7 +2723,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 osc_expr_bundle,
 	 NULL},
 	{"phi",
-	 "/result = pi()",
+	 "/result = phi()",
 	 0,
 	 0,
 	 (char *[]){NULL},
-- 
2.43.0


From 56cadc9292b412a642e68bc05011c0e73b7f94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:14 +0000
Subject: [PATCH 109/130] fix: printing a compiled expression overran its
 buffer

Property: C23
---
 osc_expr.c | 70 ++++++++++++++++++++++++------------------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 79d4c07..e23933e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7194,88 +7194,80 @@ void osc_expr_funcobj_dtor(char *key, void *val)
 	}
 }
 
-int osc_expr_format_r(t_osc_expr *fg, char *buf)
+// writes as much as fits into n bytes, or nothing if buf is NULL, and returns the length of the whole text
+static long osc_expr_nformat_r(char *buf, long n, t_osc_expr *fg)
 {
 	if(!fg){
 		return 0;
 	}
-	char *ptr = buf;
-	ptr += sprintf(ptr, "(%s ", fg->rec->name);
+#define OSC_EXPR_FORMAT_REST buf ? buf + pos : NULL, buf && n > pos ? n - pos : 0
+	long pos = 0;
+	pos += snprintf(OSC_EXPR_FORMAT_REST, "(%s ", fg->rec->name);
 	t_osc_expr_arg *f_argv = fg->argv;
 	while(f_argv){
 		switch(f_argv->type){
 		case OSC_EXPR_ARG_TYPE_ATOM:
-			{
-				t_osc_atom_u *a = f_argv->arg.atom;
-				long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-				char buf[buflen + 1];
-				osc_atom_u_nformat(buf, buflen + 1, a, 0);
-				ptr += sprintf(ptr, "%s ", buf);
-			}
+			pos += osc_atom_u_nformat(OSC_EXPR_FORMAT_REST, f_argv->arg.atom, 0);
+			pos += snprintf(OSC_EXPR_FORMAT_REST, " ");
 			break;
 		case OSC_EXPR_ARG_TYPE_LIST:
 			{
 				t_osc_atom_ar_u *ar = f_argv->arg.list;
 				for(int i = 0; i < osc_atom_array_u_getLen(ar); i++){
-					t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-					long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-					char buf[buflen + 1];
-					osc_atom_u_nformat(buf, buflen + 1, a, 0);
-					ptr += sprintf(ptr, "%s ", buf);
+					pos += osc_atom_u_nformat(OSC_EXPR_FORMAT_REST, osc_atom_array_u_get(ar, i), 0);
+					pos += snprintf(OSC_EXPR_FORMAT_REST, " ");
 				}
 			}
 			break;
 		case OSC_EXPR_ARG_TYPE_OSCADDRESS:
-			ptr += sprintf(ptr, "%s ", f_argv->arg.osc_address);
+			pos += snprintf(OSC_EXPR_FORMAT_REST, "%s ", f_argv->arg.osc_address);
 			break;
 		case OSC_EXPR_ARG_TYPE_EXPR:
-			ptr += osc_expr_format_r(f_argv->arg.expr, ptr);
+			pos += osc_expr_nformat_r(OSC_EXPR_FORMAT_REST, f_argv->arg.expr);
 			break;
  		case OSC_EXPR_ARG_TYPE_FUNCTION:
 			{
 				t_osc_expr_rec *r = f_argv->arg.func;
-				ptr += sprintf(ptr, "(lambda (");
+				pos += snprintf(OSC_EXPR_FORMAT_REST, "(lambda (");
 				int numparams = osc_expr_rec_getNumRequiredArgs(r);
 				char **paramnames = osc_expr_rec_getRequiredArgsNames(r);
 				for(int i = 0; i < numparams; i++){
-					if(i < numparams - 1){
-						ptr += sprintf(ptr, "%s, ", paramnames[i]);
-					}else{
-						ptr += sprintf(ptr, "%s) ", paramnames[i]);
-					}
+					pos += snprintf(OSC_EXPR_FORMAT_REST, i < numparams - 1 ? "%s, " : "%s", paramnames[i]);
 				}
+				pos += snprintf(OSC_EXPR_FORMAT_REST, ") ");
 				t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 				while(e){
-					ptr += osc_expr_format_r(e, ptr);
+					pos += osc_expr_nformat_r(OSC_EXPR_FORMAT_REST, e);
 					e = osc_expr_next(e);
 				}
-				ptr += sprintf(ptr, ") ");
+				pos += snprintf(OSC_EXPR_FORMAT_REST, ") ");
 			}
 			break;
 		}
 		f_argv = f_argv->next;
 	}
-	ptr--;
-	ptr += sprintf(ptr, ") ");
-	return ptr - buf;
+	pos--;
+	pos += snprintf(OSC_EXPR_FORMAT_REST, ") ");
+#undef OSC_EXPR_FORMAT_REST
+	return pos;
 }
 
 void osc_expr_format(t_osc_expr *fg, long *buflen, char **fmt)
 {
+	long bufsize = 1, bufpos = 0;
+	t_osc_expr *f = fg;
+	while(f){
+		bufsize += osc_expr_nformat_r(NULL, 0, f) + 1;
+		f = f->next;
+	}
+	*fmt = osc_mem_resize(*fmt, bufsize);
 	if(!(*fmt)){
-		*fmt = osc_mem_alloc(512);
+		return;
 	}
-	long bufsize = 512, bufpos = 0;
-	t_osc_expr *f = fg;
+	(*fmt)[0] = '\0';
+	f = fg;
 	while(f){
-		if(bufpos < 256){
-			*fmt = osc_mem_resize(*fmt, bufsize + 256);
-		}
-		if(!(*fmt)){
-			return;
-		}
-		bufsize += 256;
-		bufpos += osc_expr_format_r(f, (*fmt) + bufpos);
+		bufpos += osc_expr_nformat_r((*fmt) + bufpos, bufsize - bufpos, f);
 		bufpos += sprintf((*fmt) + bufpos, "\n");
 		f = f->next;
 	}
-- 
2.43.0


From 213aa532a4adfbef8898817d95f1dd7e8c49f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:33 +0000
Subject: [PATCH 110/130] fix: adding several arguments to an expression
 without any counted only one

Property: C23
---
 osc_expr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e23933e..f07e731 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6950,8 +6950,7 @@ void osc_expr_prependArg(t_osc_expr *e, t_osc_expr_arg *a)
 {
 	if(e){
 		if(!(e->argv)){
-			e->argv = a;
-			e->argc = 1;
+			osc_expr_setArg(e, a);
 		}else{
 			t_osc_expr_arg *aa = a;
 			t_osc_expr_arg *last = aa;
@@ -6974,8 +6973,7 @@ void osc_expr_appendArg(t_osc_expr *e, t_osc_expr_arg *a)
 {
 	if(e){
 		if(!(e->argv)){
-			e->argv = a;
-			e->argc = 1;
+			osc_expr_setArg(e, a);
 		}else{
 			t_osc_expr_arg *aa = e->argv;
 			t_osc_expr_arg *last = aa;
-- 
2.43.0


From 5009dc26f6278d9bb7bfabd9d1a5973f849706d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:46 +0000
Subject: [PATCH 111/130] fix: the documentation of bundle() had no arguments

Property: C22
---
 osc_expr_func.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 91ee85a..6a41440 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -2716,8 +2716,8 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 -1,
 	 (char *[]){NULL},
 	 (int []){},
-	 (char *[]){NULL},
-	 (int []){},
+	 (char *[]){"addresses and values"},
+	 (int []){OSC_EXPR_ARG_TYPE_ANYTHING},
 	 (char *[]){"/core", NULL},
 	 "makes a bundle from a list of bindings",
 	 osc_expr_bundle,
-- 
2.43.0


From 9915a16c21072eaf626969486a8f700d0a9d5ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:55 +0000
Subject: [PATCH 112/130] fix: getaddresses() and emptybundle() report an
 argument that fails

getaddresses(/nowhere) ignored the failure of its argument: it succeeded with
no value, so an assignment of it deleted nothing and the program went on.
emptybundle() ignored every failure but an unbound address and answered true.

Property: C18
---
 osc_expr.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index f07e731..f19ee9d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1203,6 +1203,12 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
 			return r;
 		}
+		if(r){
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
+			return r;
+		}
 		if(ar && osc_atom_array_u_getLen(ar) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
@@ -1356,7 +1362,16 @@ static int osc_expr_specFunc_getaddresses(t_osc_expr *f,
 	if(osc_expr_getArgCount(f)){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		if(r){
+			if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+			}
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
+			return r;
+		}
 		if(ar){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG){
-- 
2.43.0


From 1a930c6f1004e9784f6f0f9abaa6b0e34735af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:37 +0000
Subject: [PATCH 113/130] fix: sort() copied its elements over memory nobody
 wrote

osc_atom_u_copyInto() releases what its destination holds, so it needs one that
has been initialised: whatever the fresh block contained was taken for the type
and the ownership of an element.

Property: C24
---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index f19ee9d..f4e33f3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3973,6 +3973,7 @@ int osc_expr_sort(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
 	t_osc_atom_u *ar = (t_osc_atom_u *)osc_mem_alloc(n * osc_atom_u_getStructSize());
+	memset(ar, '\0', n * osc_atom_u_getStructSize());
 	n = 0;
 	for(int i = 0; i < argc; i++){
 		for(int j = 0; j < osc_atom_array_u_getLen(argv[i]); j++){
-- 
2.43.0


From 9847dce17f38098e3344a37e01836baad0e72025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:38 +0000
Subject: [PATCH 114/130] fix: report operators whose arguments do not go
 together, such as a string and a number

Property: C25
---
 osc_expr.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index f4e33f3..19ec95a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2473,6 +2473,8 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			timetag1 = osc_timetag_floatToTimetag(osc_atom_u_getDouble(f1));
 			timetag2 = osc_atom_u_getTimetag(f2);
 		}else{
+			int argnum = tt1 == OSC_TIMETAG_TYPETAG ? 2 : 1;
+			osc_expr_err_badInfixArg(context, "+", argnum == 1 ? tt1 : tt2, argnum, f1, f2);
 			return 1;
 		}
 		osc_atom_u_setTimetag(*result, osc_timetag_add(timetag1, timetag2));
@@ -2512,7 +2514,7 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, "+", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, "+", tt2, 2, f1, f2);
 		}
 		return 1;
@@ -2580,6 +2582,8 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 			timetag1 = osc_timetag_floatToTimetag(osc_atom_u_getDouble(f1));
 			timetag2 = osc_atom_u_getTimetag(f2);
 		}else{
+			int argnum = tt1 == OSC_TIMETAG_TYPETAG ? 2 : 1;
+			osc_expr_err_badInfixArg(context, "-", argnum == 1 ? tt1 : tt2, argnum, f1, f2);
 			return 1;
 		}
 		osc_atom_u_setTimetag(*result, osc_timetag_subtract(timetag1, timetag2));
@@ -2817,7 +2821,7 @@ int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, "<", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, "<", tt2, 2, f1, f2);
 		}
 		return 1;
@@ -2847,7 +2851,7 @@ int osc_expr_le(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, "<=", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, "<=", tt2, 2, f1, f2);
 		}
 		return 1;
@@ -2877,7 +2881,7 @@ int osc_expr_gt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, ">", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, ">", tt2, 2, f1, f2);
 		}
 		return 1;
@@ -2907,7 +2911,7 @@ int osc_expr_gte(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, ">=", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, ">=", tt2, 2, f1, f2);
 		}
 		return 1;
@@ -2954,7 +2958,7 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, "==", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, "==", tt2, 2, f1, f2);
 		}
 		return 1;
@@ -3001,7 +3005,7 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else{
 		if(!OSC_TYPETAG_ISNUMERIC(tt1) && !OSC_TYPETAG_ISSTRING(tt1)){
 			osc_expr_err_badInfixArg(context, "!=", tt1, 1, f1, f2);
-		}else if(!OSC_TYPETAG_ISNUMERIC(tt2) && !OSC_TYPETAG_ISSTRING(tt2)){
+		}else{
 			osc_expr_err_badInfixArg(context, "!=", tt2, 2, f1, f2);
 		}
 		return 1;
-- 
2.43.0


From b80c318b9546eec7c623c5786d49bf9d329f8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:38 +0000
Subject: [PATCH 115/130] fix: report the arguments of && and || that are
 unbound or not booleans

Property: C25
---
 osc_expr.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 19ec95a..639c02b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3055,6 +3055,9 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
+		if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f->argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+		}
 		goto out;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
@@ -3065,13 +3068,16 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 			goto out;
 		}
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s: the first argument must be a boolean", osc_expr_rec_getName(osc_expr_getRec(f)));
 		ret = 1;
 		goto out;
 	}
 
 	ret = osc_expr_evalArgInLexEnv(f->argv->next, lexenv, len, oscbndl, &rhs, context);
 	if(!rhs || ret){
+		if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f->argv->next), osc_expr_rec_getName(osc_expr_getRec(f)));
+		}
 		goto out;
 	}
 	char rhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(rhs, 0));
@@ -3084,7 +3090,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 		}
 		goto out;
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s: the second argument must be a boolean", osc_expr_rec_getName(osc_expr_getRec(f)));
 		ret = 1;
 		goto out;
 	}
@@ -3113,6 +3119,9 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
+		if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f->argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+		}
 		goto out;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
@@ -3123,13 +3132,16 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 			goto out;
 		}
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s: the first argument must be a boolean", osc_expr_rec_getName(osc_expr_getRec(f)));
 		ret = 1;
 		goto out;
 	}
 
 	ret = osc_expr_evalArgInLexEnv(f->argv->next, lexenv, len, oscbndl, &rhs, context);
 	if(!rhs || ret){
+		if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f->argv->next), osc_expr_rec_getName(osc_expr_getRec(f)));
+		}
 		goto out;
 	}
 	char rhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(rhs, 0));
@@ -3142,7 +3154,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 		}
 		goto out;
 	}else{
-		// post an error about type mismatch
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s: the second argument must be a boolean", osc_expr_rec_getName(osc_expr_getRec(f)));
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 529f4c47bae6ea427fa0c4356ac3e594e3e21e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:55 +0000
Subject: [PATCH 116/130] fix: settimetag() reports an argument that is unbound
 or empty

Property: C25
---
 osc_expr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 639c02b..fe65fee 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1781,6 +1781,11 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	int ret = 1;
+	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "settimetag");
+	}else if(!err && osc_atom_array_u_getLen(arg) == 0){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "settimetag: the argument is empty");
+	}
 	if(!err && osc_atom_array_u_getLen(arg) > 0){
 		t_osc_atom_u *a = osc_atom_array_u_get(arg, 0);
 		if(a){
-- 
2.43.0


From b5c5b58427c13959cb3b5a2f6161a5f7cf5ba868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:40 +0000
Subject: [PATCH 117/130] fix: reading or assigning a member of something that
 is not a bundle, or an unbound member, is reported

Property: C25
---
 osc_expr.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index fe65fee..53def4f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1812,7 +1812,13 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
-	if(osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context) || !arg1){
+	int err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+	if(err || !arg1){
+		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "getbundlemember");
+		}else if(!err){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "getbundlemember: the first argument has no value");
+		}
 		if(arg1){
 			osc_atom_array_u_free(arg1);
 		}
@@ -1836,6 +1842,7 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 			osc_bundle_s_free(b);
 			osc_message_array_s_free(msgar);
 		}else{
+			osc_expr_err_unbound(context, string, "getbundlemember");
 			osc_atom_array_u_free(arg1);
 			return OSC_ERR_EXPR_ADDRESSUNBOUND;
 		}
@@ -1861,6 +1868,9 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 			t_osc_expr *e = osc_expr_arg_getExpr(f_argv->next);
 			if(e->rec->func == osc_expr_value){
 				ret = osc_expr_evalArgInLexEnv(osc_expr_getArgs(e), lexenv, len, oscbndl, &a, context);
+				if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(osc_expr_getArgs(e)), "getbundlemember");
+				}
 			}else{
 				ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
 			}
@@ -1870,8 +1880,12 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
 				osc_expr_arg_setOSCAddress(arg, st);
 				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+				if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unbound(context, st, "getbundlemember");
+				}
 				osc_expr_arg_free(arg);
 			}else if(!ret){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "getbundlemember: the second argument has no value");
 				ret = 1;
 			}
 			if(a){
@@ -1888,8 +1902,12 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
 				osc_expr_arg_setOSCAddress(arg, st);
 				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+				if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unbound(context, st, "getbundlemember");
+				}
 				osc_expr_arg_free(arg);
 			}else if(!ret){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "getbundlemember: the second argument has no value");
 				ret = 1;
 			}
 			if(a){
@@ -1897,11 +1915,15 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 			}
 		}else{
 			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
+			if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "getbundlemember");
+			}
 		}
 		osc_mem_free(bndl_s);
 		osc_atom_array_u_free(arg1);
 				return ret;
 	}
+	osc_error(context, OSC_ERR_EXPR_ARGCHK, "getbundlemember: the first argument is not a bundle");
 	osc_atom_array_u_free(arg1);
 	return 1;
 }
@@ -1964,6 +1986,11 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			arg1 = osc_message_u_getArgArrayCopy(m);
 			osc_message_u_free(m);
 		}else{
+			if(error == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assigntobundlemember");
+			}else if(!error){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "assigntobundlemember: the first argument has no value");
+			}
 			osc_atom_array_u_free(ar);
 			return 1;
 		}
@@ -2085,6 +2112,7 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		return ret;
 	}
 
+	osc_error(context, OSC_ERR_EXPR_ARGCHK, "assigntobundlemember: the first argument is not a bundle");
 	osc_atom_array_u_free(ar);
 	osc_atom_array_u_free(arg1);
 	return 1;
-- 
2.43.0


From 72b9ccaf993c5ab9edc6591e1aac4f9ae2cff540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:40 +0000
Subject: [PATCH 118/130] fix: apply() reports a first argument that is not a
 function

Property: C25
---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 53def4f..7378fcb 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -562,7 +562,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		osc_expr_free(e);
 		return ret;
 	}else{
-		//error
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "apply: the first argument is not a function");
 		return 1;
 	}
 	return 0;
-- 
2.43.0


From 4bf5d5fe05f428016322a6b0d9c6f39a85cdaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:40 +0000
Subject: [PATCH 119/130] fix: assigning to an index reports an empty list of
 indexes or values

Property: C25
---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index 7378fcb..0413393 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1002,6 +1002,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         }
         int ndata = osc_atom_array_u_getLen(data);
         if(nindexes == 0 || ndata == 0){
+            osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s : assign to index: there is no %s", osc_expr_arg_getOSCAddress(f_argv), nindexes == 0 ? "index" : "value");
             err = 1;
             goto bail;
         }else if(nindexes == 1 && ndata > 1){
-- 
2.43.0


From 3c0f6e6207dc86103560dfd1c11f6b7f37ff6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:40 +0000
Subject: [PATCH 120/130] fix: the functions on strings report arguments that
 are not strings

Property: C25
---
 osc_expr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 0413393..35255fd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5363,6 +5363,7 @@ int osc_expr_strcmp(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		if(st2){
 			osc_mem_free(st2);
 		}
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "strcmp: the arguments must be strings");
 		return 1;
 	}
 	int ret = 0;
@@ -5393,7 +5394,10 @@ int osc_expr_strlen(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
         char *str = NULL;
         osc_atom_u_getString(osc_atom_array_u_get(*argv, i), 0, &str);
         if(!str)
+        {
+            osc_error(context, OSC_ERR_EXPR_ARGCHK, "strlen: the arguments must be strings");
             return 1;
+        }
         long len = strlen(str);
         osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), len);
         osc_mem_free(str);
@@ -5418,7 +5422,10 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
         char *str = NULL;
         osc_atom_u_getString(osc_atom_array_u_get(argv[1], i), 0, &str);
         if(!str)
+        {
+            osc_error(context, OSC_ERR_EXPR_ARGCHK, "strchar: the second argument must be a string");
             return 1;
+        }
         long len = strlen(str);
         
         char *buf = osc_mem_alloc(numchars + 1);
@@ -5461,6 +5468,7 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
         if(str){
             osc_mem_free(str);
         }
+        osc_error(context, OSC_ERR_EXPR_ARGCHK, "strfind: the arguments must be strings");
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5514,6 +5522,7 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		if(str){
 			osc_mem_free(str);
 		}
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "split: the arguments must be strings");
 		return 1;
 	}
 	if(strlen(sep) == 0){
-- 
2.43.0


From 6a6bd1138c2b9c1022450d5fb1ce404a26b2bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:40 +0000
Subject: [PATCH 121/130] fix: bitand(), bitor(), cross(), and bundle() report
 arguments of the wrong type

Property: C25
---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 35255fd..d147cea 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4559,6 +4559,7 @@ int osc_expr_cross(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		return 1;
 	}
 	if(osc_atom_array_u_getLen(*argv) != 3 || osc_atom_array_u_getLen(argv[1]) != 3){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "cross: the arguments must be lists of three numbers");
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(3);
@@ -4585,7 +4586,7 @@ int osc_expr_cross(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	case 'd':
 		return osc_expr_cross_float64(f, argc, argv, out, context);
 	default:
-		// type error
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "cross: the arguments must be lists of three numbers");
 		return 1;
 	}
 }
@@ -5625,6 +5626,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		return 1;
 	}
 	if(!OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0))) || !OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0)))){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bitand: the arguments must be integers");
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
@@ -5699,6 +5701,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		return 1;
 	}
 	if(!OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, 0))) || !OSC_TYPETAG_ISINT(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0)))){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "bitor: the arguments must be integers");
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
@@ -6823,6 +6826,7 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 				osc_bundle_u_free(b);
 				osc_atom_array_u_free(*out);
 				*out = NULL;
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle(): argument %d must be an address", i + 1);
 				return 1;
 			}
 			t_osc_msg_u *m = osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(aa));
-- 
2.43.0


From 163ceeace7935d5f0c99e101d150e1f432db13bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:38 +0000
Subject: [PATCH 122/130] fix: apply() reports a first argument that is not the
 name of a function

Property: C25
---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d147cea..9daaf07 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -426,7 +426,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		t_osc_expr_rec *r = NULL;
 		if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM){
 			if(osc_atom_u_getTypetag(osc_expr_arg_getOSCAtom(f_argv)) != 's'){
-				//error
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "apply: the first argument is not a function");
 				return 1;
 			}
 			/*
@@ -467,16 +467,16 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				return e;
 			}
 			if(!ar){
-				//error
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "apply: the first argument is not a function");
 				return 1;
 			}
 			if(osc_atom_array_u_getLen(ar) != 1){
-				//error
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "apply: the first argument is not a function");
 				osc_atom_array_u_free(ar);
 				return 1;
 			}
 			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
-				//error
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "apply: the first argument is not a function");
 				osc_atom_array_u_free(ar);
 				return 1;
 			}
-- 
2.43.0


From 16b68e80fc3efe80ef44be0d9b064a62b9b83bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:38 +0000
Subject: [PATCH 123/130] fix: lreduce(), rreduce(), and prog2() report the
 arguments that they refuse

Property: C25
---
 osc_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 9daaf07..c412996 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -694,6 +694,7 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		a = a->next;
 		err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &acc, context);
 		if(!err && osc_atom_array_u_getLen(acc) == 0){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s: the start value is empty", name);
 			err = 1;
 		}
 	}
@@ -5257,6 +5258,7 @@ int osc_expr_prog2(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		*out = osc_atom_array_u_copy(argv[1]);
 		return 0;
 	}else{
+		osc_expr_err_argnum(context, 2, argc, 1, "prog2");
 		return 1;
 	}
 }
-- 
2.43.0


From dec427e106f4e0e585de02e1694e287b67ae09f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:42 +0000
Subject: [PATCH 124/130] fix: assign() and bundle() report an argument without
 a value, or of the wrong type

Property: C25
---
 osc_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index c412996..0b98405 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -825,6 +825,7 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 			return err;
 		}
 		if(!address_ar){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to assign() should resolve to an OSC address");
 			return 1;
 		}
 		t_osc_atom_u *address_atom = osc_atom_array_u_get(address_ar, 0);
@@ -6853,6 +6854,7 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		osc_atom_u_setBndl_u(aout, b);
 		return 0;
 	}
+	osc_error(context, OSC_ERR_EXPR_ARGCHK, "bundle(): the argument must be an address, a blob, or a list of bytes");
 	return 1;
 }
 
-- 
2.43.0


From 359736f1e78288060a2efddc7fc598936982c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:07 +0000
Subject: [PATCH 125/130] fix: reports with long file or function names
 overflowed a buffer, and percent signs in them were taken for conversions

Property: C25
---
 osc_error.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index e168bdd..90dce6e 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -37,6 +37,25 @@ int osc_error_defaultHandler(void *context, const char * const errorstr)
 
 static t_osc_error_handler _osc_error_handler = osc_error_defaultHandler;
 
+// appends to the string at pos, which ends before end, and returns the new end of the string
+static char *osc_error_append(char *pos, char *end, const char * const fmt, va_list ap)
+{
+	int n = vsnprintf(pos, end - pos, fmt, ap);
+	if(n < 0){
+		return pos;
+	}
+	return n < end - pos ? pos + n : end - 1;
+}
+
+static char *osc_error_appendf(char *pos, char *end, const char * const fmt, ...)
+{
+	va_list ap;
+	va_start(ap, fmt);
+	pos = osc_error_append(pos, end, fmt, ap);
+	va_end(ap);
+	return pos;
+}
+
 int osc_error_handler(void *context,
 					const char * const filename,
 		      const char * const functionname,
@@ -53,28 +72,27 @@ int osc_error_handler(void *context,
 		int buflen = MAX_ERR_STRING_LEN;
 		char buf[buflen];
 		char *pos = buf;
+		char *end = buf + buflen;
+		*pos = '\0';
 		if(filename){
-			pos += snprintf(pos, buflen, "%s:\n", filename);
+			pos = osc_error_appendf(pos, end, "%s:\n", filename);
 		}
 		if(functionname){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s(): ", functionname);
+			pos = osc_error_appendf(pos, end, "%s(): ", functionname);
 		}
 		if(linenum > 0){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%d: ", linenum);
+			pos = osc_error_appendf(pos, end, "%d: ", linenum);
 		}
 		if(errorcode){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s: \n", osc_error_string(errorcode));
+			pos = osc_error_appendf(pos, end, "%s: \n", osc_error_string(errorcode));
 		}
 		if(moreinfo_fmt){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s", moreinfo_fmt);
+			va_list ap;
+			va_start(ap, moreinfo_fmt);
+			osc_error_append(pos, end, moreinfo_fmt, ap);
+			va_end(ap);
 		}
-		va_list ap;
-		va_start(ap, moreinfo_fmt);
-		char newbuf[buflen];
-		pos = newbuf;
-		pos += vsnprintf(newbuf, (buflen - (pos - newbuf)), buf, ap);
-		va_end(ap);
-		return _osc_error_handler(context, newbuf);
+		return _osc_error_handler(context, buf);
 	}
 	return 0;
 }
-- 
2.43.0


From 8df32c43d5d79b66b209e04aaba6f6cb76d616c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:47 +0000
Subject: [PATCH 126/130] fix: a ] that comes first in a character class is one
 of its characters

Property: C04
---
 osc_match.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_match.c b/osc_match.c
index f8726c9..b333577 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -260,6 +260,8 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					// so skip over it
 					if(pattern[sp->p + 1] == ']'){
 						sp->p += 2;
+					}else if(pattern[sp->p + 1] == '!' && pattern[sp->p + 2] == ']'){
+						sp->p += 3;
 					}
 					while(1){
 						if(pattern[sp->p] == ']'){
@@ -393,6 +395,7 @@ static inline int osc_match_range(const char *pattern, const char *address)
 		if(*p == *address){
 			return val;
 		}
+		p++;
 	}
 	while(*p != ']'){
 		char c = *p++, c2;
-- 
2.43.0


From 7ec64ac78141236b8264fd6ae40455191b857ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:58 +0000
Subject: [PATCH 127/130] fix: a blob copied into the caller's buffer stays
 within it

Property: C08
---
 osc_atom_u.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index e0fd70e..b14c4e2 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -936,7 +936,12 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		*blob = osc_mem_alloc(*buflen);
 	}
 	memset(*blob, '\0', *buflen);
-	switch(osc_atom_u_getTypetag(a)){
+	char tt = osc_atom_u_getTypetag(a);
+	if(*buflen < (tt == 'b' ? 0 : tt == 's' ? 4 : bloblen + 4)){
+		// blobs and strings are cut off, anything else is left out
+		return;
+	}
+	switch(tt){
 	case 'b':
 		memcpy(*blob, a->w.b, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
 		break;
-- 
2.43.0


From c7eca7f089ca6eb072d28b68f1c61f5a66ce7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:19 +0000
Subject: [PATCH 128/130] fix: what the expression functions keep per element
 is on the heap

sortidx, nonzero, join, quickhull, match and the comparison of bundles kept it in
variable-length arrays, which a long list or a big bundle made larger than the stack.

Property: C19
---
 osc_expr.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0b98405..e2d7153 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2984,11 +2984,13 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		if(len1 != len2){
 			osc_atom_u_setBool(*result, 0);
 		}else{
-			char buf1[len1];
+			char *buf1 = osc_mem_alloc(len1);
 			osc_bundle_u_nserialize(buf1, len1, b1);
-			char buf2[len2];
+			char *buf2 = osc_mem_alloc(len2);
 			osc_bundle_u_nserialize(buf2, len2, b2);
 			long r = memcmp(buf1, buf2, len1);
+			osc_mem_free(buf1);
+			osc_mem_free(buf2);
 			osc_atom_u_setBool(*result, !r);
 		}
 	}else{
@@ -3031,11 +3033,13 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(len1 != len2){
 			osc_atom_u_setBool(*result, 1);
 		}else{
-			char buf1[len1];
+			char *buf1 = osc_mem_alloc(len1);
 			osc_bundle_u_nserialize(buf1, len1, b1);
-			char buf2[len2];
+			char *buf2 = osc_mem_alloc(len2);
 			osc_bundle_u_nserialize(buf2, len2, b2);
 			long r = memcmp(buf1, buf2, len1);
+			osc_mem_free(buf1);
+			osc_mem_free(buf2);
 			osc_atom_u_setBool(*result, r);
 		}
 	}else{
@@ -4078,7 +4082,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long n = osc_atom_array_u_getLen(argv[0]);
     
     *out = osc_atom_array_u_alloc(n);
-    t_sortIndexStruct sort_ar[n > 0 ? n : 1];
+    t_sortIndexStruct *sort_ar = osc_mem_alloc((n > 0 ? n : 1) * sizeof(t_sortIndexStruct));
     
     for(int i = 0; i < n; i++)
     {
@@ -4095,6 +4099,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
         osc_atom_u_free(sort_ar[i].a);
     }
+    osc_mem_free(sort_ar);
     
     return 0;
 }
@@ -4102,7 +4107,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	long n = osc_atom_array_u_getLen(argv[0]);
-	long idxs[n > 0 ? n : 1];
+	long *idxs = osc_mem_alloc((n > 0 ? n : 1) * sizeof(long));
 	long idxcount = 0;
 	for(int i = 0; i < n; i++){
 		t_osc_atom_u *a = osc_atom_array_u_get(argv[0], i);
@@ -4115,6 +4120,7 @@ int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	for(int i = 0; i < idxcount; i++){
 		osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), idxs[i]);
 	}
+	osc_mem_free(idxs);
 	return 0;
 }
 
@@ -4815,8 +4821,8 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 		osc_error(context, OSC_ERR_INVAL, "quickhull(): requires at least three points");
 		return 0;
 	}
-	double xs[n];
-	double ys[n];
+	double *xs = osc_mem_alloc(n * sizeof(double));
+	double *ys = osc_mem_alloc(n * sizeof(double));
 	if(argc == 1){
 		for(int i = 0; i < n; i++){
 			xs[i] = osc_atom_u_getDouble(osc_atom_array_u_get(argv[0], i * 2));
@@ -4836,7 +4842,7 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 			maxx = i;
 		}
 	}
-	int hull[n];
+	int *hull = osc_mem_alloc(n * sizeof(int));
 	memset(hull, 0, n * sizeof(int));
 	int hulln = 0;
 	hulln = _osc_expr_quickhull(hulln, hull, minx, maxx, n, xs, ys, 1);
@@ -4851,6 +4857,9 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 			j++;
 		}
 	}
+	osc_mem_free(xs);
+	osc_mem_free(ys);
+	osc_mem_free(hull);
 	return 0;
 }
 
@@ -5582,7 +5591,7 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	for(int i = 1; i < argc; i++){
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
-	char *ptrs[n > 0 ? n : 1];
+	char **ptrs = osc_mem_alloc((n > 0 ? n : 1) * sizeof(char *));
 	int len = 0;
 	n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5614,6 +5623,7 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		}
 		osc_mem_free(ptrs[i]);
 	}
+	osc_mem_free(ptrs);
 	*out = osc_atom_array_u_alloc(1);
 	osc_atom_u_setStringPtr(osc_atom_array_u_get(*out, 0), buf);
 	osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
@@ -6690,7 +6700,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		t_osc_msg_u *full = osc_message_u_allocWithAddress("/full");
 		t_osc_msg_u *partial = osc_message_u_allocWithAddress("/partial");
 		t_osc_msg_u *unmatched = osc_message_u_allocWithAddress("/unmatched");
-		int matches[naddresses > 0 ? naddresses : 1];
+		int *matches = osc_mem_alloc(sizeof(int) * (naddresses > 0 ? naddresses : 1));
 		memset(matches, 0, sizeof(int) * naddresses);
 		for(int j = 0; j < naddresses; j++){
 			t_osc_atom_u *address = osc_atom_array_u_get(argv[1], j);
@@ -6720,6 +6730,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 				osc_message_u_appendString(unmatched, address_string);
 			}
 		}
+		osc_mem_free(matches);
 		osc_bundle_u_addMsg(b, pattern_msg);
 		osc_bundle_u_addMsg(b, full);
 		osc_bundle_u_addMsg(b, partial);
-- 
2.43.0


From a7de2a17cc30097ce13c9bb9a066b5c80ed473b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:44 +0000
Subject: [PATCH 129/130] fix: the report about an assignment to ++x is
 composed on the heap

The buffer was a variable-length array as long as the name.

Property: C19
---
 osc_expr_parser.y | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index eac5e5c..b62bc91 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1644,33 +1644,37 @@ expr:
 	}
 // invalid constructs that result in errors
 	| OSC_EXPR_STRING OSC_EXPR_INC '=' arg {
-		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($1)) + 3);
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($1);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
-		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($1)) + 3);
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($1);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
-		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($2)) + 3);
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($2);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
-		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($2)) + 3);
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($2);
 		osc_expr_arg_freeList($4);
 		YYABORT;
-- 
2.43.0


From f59d17b90545a9ef56ea77a60334301dfacf815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:03 +0000
Subject: [PATCH 130/130] fix: explode, flatten and dispatch keep what grows
 with their input on the heap

The buffers for addresses were variable-length arrays, two for every level of the
address exploded, and those for matches were as long as the table: an address of a
few thousand characters overflowed the stack.

Property: C11
---
 osc_bundle_u.c  |  6 ++++--
 osc_dispatch.c  | 16 ++++++++++++----
 osc_message_u.c | 12 +++++++++---
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index a4b3c4e..fbb0b1d 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -474,7 +474,7 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					t_osc_err e;
 					if(prefix){
 						int prefixlen = strlen(prefix) + strlen(osc_message_u_getAddress(mcopy)) + strlen(sep);
-						char pfx[prefixlen + 1];
+						char *pfx = osc_mem_alloc(prefixlen + 1);
 						sprintf(pfx, "%s%s%s", prefix, sep, osc_message_u_getAddress(mcopy));
 						e = osc_bundle_u_flatten_impl(dest,
 									      bu,
@@ -483,6 +483,7 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 									      pfx,
 									      sep,
 									      remove_enclosing_address_if_empty);
+						osc_mem_free(pfx);
 					}else{
 						e = osc_bundle_u_flatten_impl(dest,
 									      bu,
@@ -502,9 +503,10 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
 				int newaddresslen = strlen(prefix) + strlen(osc_message_u_getAddress(mcopy)) + strlen(sep);
-				char newaddress[newaddresslen + 1];
+				char *newaddress = osc_mem_alloc(newaddresslen + 1);
 				sprintf(newaddress, "%s%s%s", prefix, sep, osc_message_u_getAddress(mcopy));
 				osc_message_u_setAddress(mcopy, newaddress);
+				osc_mem_free(newaddress);
 			}
 			osc_bundle_u_addMsgWithoutDups(*dest, mcopy);
 		}else{
diff --git a/osc_dispatch.c b/osc_dispatch.c
index a54c6c5..dbb926e 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -203,8 +203,8 @@ t_osc_err osc_dispatch(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries + 1]; // never of length 0
-	t_osc_bndl_s *complete_matches[nentries + 1];
+	t_osc_bndl_s **partial_matches = osc_mem_alloc((nentries + 1) * sizeof(t_osc_bndl_s *)); // never of length 0
+	t_osc_bndl_s **complete_matches = osc_mem_alloc((nentries + 1) * sizeof(t_osc_bndl_s *));
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
@@ -218,6 +218,8 @@ t_osc_err osc_dispatch(t_osc_vtable *vtab,
 				    complete_matches,
 				    &unmatched);
 	if(ret){
+		osc_mem_free(partial_matches);
+		osc_mem_free(complete_matches);
 		return ret;
 	}
 	if(unmatched){
@@ -235,6 +237,8 @@ t_osc_err osc_dispatch(t_osc_vtable *vtab,
 		}
 	}
 	osc_bundle_s_deepFree(unmatched);
+	osc_mem_free(partial_matches);
+	osc_mem_free(complete_matches);
 	return OSC_ERR_NONE;
 }		       
 
@@ -258,8 +262,8 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries + 1]; // never of length 0
-	t_osc_bndl_s *complete_matches[nentries + 1];
+	t_osc_bndl_s **partial_matches = osc_mem_alloc((nentries + 1) * sizeof(t_osc_bndl_s *)); // never of length 0
+	t_osc_bndl_s **complete_matches = osc_mem_alloc((nentries + 1) * sizeof(t_osc_bndl_s *));
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
@@ -273,6 +277,8 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 				    complete_matches,
 				    &unmatched);
 	if(ret){
+		osc_mem_free(partial_matches);
+		osc_mem_free(complete_matches);
 		return ret;
 	}
 	if(unmatched){
@@ -297,5 +303,7 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 		}
 	}
 	osc_bundle_s_deepFree(unmatched);
+	osc_mem_free(partial_matches);
+	osc_mem_free(complete_matches);
 	return OSC_ERR_NONE;
 }
diff --git a/osc_message_u.c b/osc_message_u.c
index fb1ddaf..86c213a 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -869,7 +869,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			break;
 		}
 	}
-	char a1[alen + 1];
+	char *a1 = osc_mem_alloc(alen + 1);
 	strncpy(a1, a, i);
 	a1[i] = '\0';
 
@@ -877,6 +877,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 	osc_bundle_u_addressExists(dest, a1, 1, &exists);
 	if(exists){
 		if(a[i] == '\0'){
+			osc_mem_free(a1);
 			osc_bundle_u_addMsgWithoutDups(dest, msg);
 			return OSC_ERR_NONE;
 		}else{
@@ -908,7 +909,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					osc_message_u_clearArgs(m);
 				}
 			}
-			char a2[alen + 1];
+			char *a2 = osc_mem_alloc(alen + 1);
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
@@ -920,6 +921,8 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
+			osc_mem_free(a2);
+			osc_mem_free(a1);
 			t_osc_err ret = osc_message_u_explode_impl(b, msg, level + 1, maxlevel, s);
 			if(ret){
 				return ret;
@@ -938,12 +941,13 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 		}
 	}else{
 		if(a[i] == '\0'){
+			osc_mem_free(a1);
 			osc_bundle_u_addMsg(dest, msg);
 		}else{
 			t_osc_bndl_u *b = osc_bundle_u_alloc();
 			t_osc_msg_u *m = osc_message_u_alloc();
 			osc_message_u_setAddress(m, a1);
-			char a2[alen + 1];
+			char *a2 = osc_mem_alloc(alen + 1);
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
@@ -955,6 +959,8 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
+			osc_mem_free(a2);
+			osc_mem_free(a1);
 			t_osc_err ret = osc_message_u_explode_impl(b, msg, level + 1, maxlevel, s);
 			if(ret){
 				return ret;
-- 
2.43.0

