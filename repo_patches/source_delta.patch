From 4e9b2c0c21b0aaa11412d4d5c82bb8f39216dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 01/80] fix: encode a 255 octet packet length in one octet

MQTTSNPacket_encode gets the total length, for which the one octet form reaches up to 255. It wrote three
octets for 255 while MQTTSNPacket_len had reserved one, running two octets past the buffer.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 86c1e90..87b130e 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -67,7 +67,7 @@ int MQTTSNPacket_encode(unsigned char* buf, int length)
 	int rc = 0;
 
 	FUNC_ENTRY;
-	if (length >= 255)
+	if (length > 255)
 	{
 		writeChar(&buf, 0x01);
 		writeInt(&buf, length);
-- 
2.43.0


From caa631d352ebd9357db107e73666eb90a1d6c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 02/80] fix: deserialisers check the packet against the bytes
 that are there

A truncated packet, or a length field that disagrees with the buffer or with the fixed fields, made the
MQTTSNDeserialize_* functions read outside the buffer and return fields from there.
---
 MQTTSNPacket/src/MQTTSNConnectClient.c      | 36 ++++++++++------
 MQTTSNPacket/src/MQTTSNConnectServer.c      | 48 ++++++++++++++-------
 MQTTSNPacket/src/MQTTSNDeserializePublish.c | 37 +++++++++++-----
 MQTTSNPacket/src/MQTTSNPacket.c             |  2 +-
 MQTTSNPacket/src/MQTTSNSearchClient.c       | 14 ++++--
 MQTTSNPacket/src/MQTTSNSearchServer.c       |  7 ++-
 MQTTSNPacket/src/MQTTSNSubscribeClient.c    |  7 ++-
 MQTTSNPacket/src/MQTTSNSubscribeServer.c    | 11 ++++-
 MQTTSNPacket/src/MQTTSNUnsubscribeClient.c  |  7 ++-
 MQTTSNPacket/src/MQTTSNUnsubscribeServer.c  | 11 ++++-
 10 files changed, 127 insertions(+), 53 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index e8a6d93..2097b62 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -87,12 +87,15 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += (rc = MQTTSNPacket_decode(curdata, buflen, &mylen)); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (enddata - curdata < 2) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNACK)
@@ -197,12 +200,15 @@ int MQTTSNDeserialize_pingresp(unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (enddata - curdata < 1) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGRESP)
@@ -425,12 +431,15 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (enddata - curdata < 2) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
@@ -457,12 +466,15 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (enddata - curdata < 2) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 1b707ef..1c4d004 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -32,15 +32,18 @@ int MQTTSNDeserialize_connect(MQTTSNPacket_connectData* data, unsigned char* buf
 {
 	MQTTSNFlags flags;
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
 	int version;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, len, &mylen)) < 0 || mylen > len) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata < 2)
+	if (enddata - curdata < 5) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNECT)
@@ -107,12 +110,15 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = -1;
-	int mylen;
+	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (enddata - curdata < 1) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_DISCONNECT)
@@ -197,14 +203,17 @@ exit:
 int MQTTSNDeserialize_pingreq(MQTTSNString* clientID, unsigned char* buf, int len)
 {
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, len, &mylen)) < 0 || mylen > len) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (enddata - curdata < 1) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGREQ)
@@ -260,20 +269,24 @@ int MQTTSNDeserialize_willtopic1(int *willQoS, unsigned char *willRetain, MQTTSN
 {
 	MQTTSNFlags flags;
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, len, &mylen)) < 0 || mylen > len) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (enddata - curdata < 1) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
 		goto exit;
 
-	flags.all = readChar(&curdata);
+	/* a WILLTOPIC of two octets has neither flags nor topic: it deletes the will */
+	flags.all = (enddata > curdata) ? readChar(&curdata) : 0;
 	*willQoS = flags.bits.QoS;
 	*willRetain = flags.bits.retain;
 
@@ -322,14 +335,17 @@ int MQTTSNDeserialize_willtopicupd(int *willQoS, unsigned char *willRetain, MQTT
 int MQTTSNDeserialize_willmsg1(MQTTSNString* willMsg, unsigned char* buf, int len, enum MQTTSN_msgTypes packet_type)
 {
 	unsigned char* curdata = buf;
-	unsigned char* enddata = &buf[len];
+	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, len, &mylen)) < 0 || mylen > len) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (enddata - curdata < 1) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
diff --git a/MQTTSNPacket/src/MQTTSNDeserializePublish.c b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
index 98de94b..2583b71 100644
--- a/MQTTSNPacket/src/MQTTSNDeserializePublish.c
+++ b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
@@ -41,11 +41,14 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 6) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBLISH)
@@ -73,6 +76,8 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 
 	if (topic->type == MQTTSN_TOPIC_TYPE_NORMAL && *qos == 3)
 	{
+		if (topic->data.long_.len > enddata - curdata)
+			goto exit;
 		topic->data.long_.name = (char*)curdata;
 		curdata += topic->data.long_.len;
 	}
@@ -93,11 +98,14 @@ int MQTTSNDeserialize_puback(unsigned short* topicid, unsigned short* packetid,
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 6) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBACK)
@@ -128,11 +136,14 @@ int MQTTSNDeserialize_ack(unsigned char* type, unsigned short* packetid, unsigne
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 3) /* not all the fields are there */
 		goto exit;
 
 	*type = readChar(&curdata);
@@ -164,11 +175,14 @@ int MQTTSNDeserialize_register(unsigned short* topicid, unsigned short* packetid
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 5) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGISTER)
@@ -204,11 +218,14 @@ int MQTTSNDeserialize_regack(unsigned short* topicid, unsigned short* packetid,
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 6) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGACK)
diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 87b130e..94b977f 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -212,6 +212,7 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 	int rc = 0;
 
 	FUNC_ENTRY;
+	MQTTSNString->cstring = NULL;
 	MQTTSNString->lenstring.len = enddata - *pptr;
 	if (MQTTSNString->lenstring.len > 0)
 	{
@@ -221,7 +222,6 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 	else
 	{
 		MQTTSNString->lenstring.data = NULL;
-		MQTTSNString->cstring = NULL;
 	}
 	rc = 1;
 	FUNC_EXIT_RC(rc);
diff --git a/MQTTSNPacket/src/MQTTSNSearchClient.c b/MQTTSNPacket/src/MQTTSNSearchClient.c
index af93c19..5b3e734 100644
--- a/MQTTSNPacket/src/MQTTSNSearchClient.c
+++ b/MQTTSNPacket/src/MQTTSNSearchClient.c
@@ -34,11 +34,14 @@ int MQTTSNDeserialize_advertise(unsigned char* gatewayid, unsigned short* durati
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 4) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_ADVERTISE)
@@ -103,11 +106,14 @@ int MQTTSNDeserialize_gwinfo(unsigned char* gatewayid, unsigned short* gatewayad
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 2) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_GWINFO)
diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index c83fd16..0afb8d5 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -66,11 +66,14 @@ int MQTTSNDeserialize_searchgw(unsigned char* radius, unsigned char* buf, int bu
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 2) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SEARCHGW)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeClient.c b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
index 97680ed..22856d6 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
@@ -113,11 +113,14 @@ int MQTTSNDeserialize_suback(int* qos, unsigned short* topicid, unsigned short*
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 7) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeServer.c b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
index 54f6faa..ae79726 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
@@ -37,11 +37,14 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 4) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBSCRIBE)
@@ -60,6 +63,8 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2) /* no room for a topic id or a short topic name */
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
@@ -67,6 +72,8 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 		topicFilter->data.short_name[0] = readChar(&curdata);
 		topicFilter->data.short_name[1] = readChar(&curdata);
 	}
+	else /* reserved topic id type */
+		goto exit;
 
 	rc = 1;
 exit:
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
index 9d952f7..b332818 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
@@ -95,11 +95,14 @@ int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 3) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
index fe727bc..b12e3d5 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
@@ -25,11 +25,14 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 	unsigned char* enddata = NULL;
 	int rc = 0;
 	int mylen = 0;
+	int lenlen = 0;
 
 	FUNC_ENTRY;
-	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
+	if ((lenlen = MQTTSNPacket_decode(curdata, buflen, &mylen)) < 0 || mylen > buflen) /* read length */
+		goto exit;
+	curdata += lenlen;
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (enddata - curdata < 4) /* not all the fields are there */
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBSCRIBE)
@@ -44,6 +47,8 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2) /* no room for a topic id or a short topic name */
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
@@ -51,6 +56,8 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 		topicFilter->data.short_name[0] = readChar(&curdata);
 		topicFilter->data.short_name[1] = readChar(&curdata);
 	}
+	else /* reserved topic id type */
+		goto exit;
 
 	rc = 1;
 exit:
-- 
2.43.0


From b3904c1a54489e54ce4ee19e4082c75530fe30da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 03/80] fix: DUP flag is decoded as 1, not as -1

A one bit signed bit field holds 0 or -1, so MQTTSNDeserialize_publish and _subscribe returned 255 for DUP.
---
 MQTTSNPacket/src/MQTTSNPacket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.h b/MQTTSNPacket/src/MQTTSNPacket.h
index 3d9b296..6592517 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.h
+++ b/MQTTSNPacket/src/MQTTSNPacket.h
@@ -85,7 +85,7 @@ typedef union
 #if defined(REVERSED)
 	struct
 	{
-		int dup: 1;
+		unsigned int dup: 1;
 		unsigned int QoS : 2;
 		unsigned int retain : 1;
 		unsigned int will : 1;
@@ -100,7 +100,7 @@ typedef union
 		unsigned int will : 1;
 		unsigned int retain : 1;
 		unsigned int QoS : 2;
-		int dup: 1;
+		unsigned int dup: 1;
 	} bits;
 #endif
 } MQTTSNFlags;
-- 
2.43.0


From dbdb1436e77159abda909673b27d93e8c59db341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 04/80] fix: packet readers reject a packet without a message
 type

A datagram that ends before the message type (or an empty one) made MQTTSNPacket_read and
MQTTSNPacket_read_nb look for the type outside the buffer.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 94b977f..9f5dff6 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -267,7 +267,7 @@ int MQTTSNPacket_read(unsigned char* buf, int buflen, int (*getfn)(unsigned char
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen < 0 || datalen != len || lenlen >= len)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
@@ -284,7 +284,7 @@ int MQTTSNPacket_read_nb(unsigned char* buf, int buflen)
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen < 0 || datalen != len || lenlen >= len)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
-- 
2.43.0


From a845ee7209bd07c1b9135806ed564f67ca1e05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 05/80] fix: DISCONNECT without a duration reports -1 as
 documented

MQTTSNDeserialize_disconnect left *duration untouched when the packet has no duration.
---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp   | 2 +-
 MQTTSNPacket/src/MQTTSNConnectServer.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 72189db..f7a51ab 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -397,7 +397,7 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 {
     int dur = 0;
     int rc = MQTTSNDeserialize_disconnect(&dur, _buf, _bufLen);
-    *duration = (uint16_t) dur;
+    *duration = dur > 0 ? (uint16_t) dur : 0;
     return rc;
 }
 
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 1c4d004..7e2defe 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -124,6 +124,7 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 	if (readChar(&curdata) != MQTTSN_DISCONNECT)
 		goto exit;
 
+	*duration = -1;
 	if (enddata - curdata == 2)
 		*duration = readInt(&curdata);
 	else if (enddata != curdata)
-- 
2.43.0


From c725d28d8283463ac450c083a94c3967dc0eb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 06/80] fix: string writers use the same source as the length
 computation

MQTTSNstrlen() takes the C string when there is one; writeMQTTSNString() took
the lenstring, so a string with both set was written with a length other than
the one checked against the buffer.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 9f5dff6..594e065 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -191,13 +191,13 @@ int getLenStringLen(char* ptr)
 
 void writeMQTTSNString(unsigned char** pptr, MQTTSNString MQTTSNString)
 {
-	if (MQTTSNString.lenstring.len > 0)
+	if (MQTTSNString.cstring)
+		writeCString(pptr, MQTTSNString.cstring);
+	else if (MQTTSNString.lenstring.len > 0)
 	{
 		memcpy(*pptr, (const unsigned char*)MQTTSNString.lenstring.data, MQTTSNString.lenstring.len);
 		*pptr += MQTTSNString.lenstring.len;
 	}
-	else if (MQTTSNString.cstring)
-		writeCString(pptr, MQTTSNString.cstring);
 }
 
 
-- 
2.43.0


From 34398b02a64a63d1b1a363bd32f7d10b226c86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 07/80] fix: an MQTT packet may arrive in any number of TCP
 segments

recv() took whatever one read returned for the whole body, so a packet split
by TCP was dropped and the connection closed or left out of step. It also
refused 4-octet remaining lengths and took an end of stream inside the length
for another length octet.
---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 45 ++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 921bcee..065b4b4 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -18,13 +18,15 @@
 #include "MQTTGWPacket.h"
 #include <string>
 #include <string.h>
+#include <sys/select.h>
 
 using namespace MQTTSNGW;
 
 int readInt(char** ptr);
 void writeInt(unsigned char** pptr, int msgId);
 
-#define MAX_NO_OF_REMAINING_LENGTH_BYTES    3
+#define MAX_NO_OF_REMAINING_LENGTH_BYTES    4
+#define PACKET_RECV_TIMEOUT                 5  // seconds to wait for the rest of a packet
 /**
  * List of the predefined MQTT v3 packet names.
  */
@@ -180,6 +182,37 @@ MQTTGWPacket::~MQTTGWPacket()
     }
 }
 
+/**
+ * Reads exactly len bytes of a packet. TCP may deliver them in any number of pieces.
+ * @return len, or -1 when the connection failed, ended or stalled in the middle of the packet
+ */
+static int recvRest(Network* network, unsigned char* buf, int len)
+{
+    int done = 0;
+    while (done < len)
+    {
+        if (!network->isSecure())
+        {
+            struct timeval timeout = { PACKET_RECV_TIMEOUT, 0 };
+            fd_set rset;
+            int sock = network->getSock();
+            FD_ZERO(&rset);
+            FD_SET(sock, &rset);
+            if (select(sock + 1, &rset, 0, 0, &timeout) <= 0)
+            {
+                return -1;
+            }
+        }
+        int rc = network->recv(buf + done, len - done > 0x7fff ? 0x7fff : len - done);
+        if (rc <= 0)
+        {
+            return -1;
+        }
+        done += rc;
+    }
+    return len;
+}
+
 int MQTTGWPacket::recv(Network* network)
 {
     int len = 0;
@@ -199,7 +232,7 @@ int MQTTGWPacket::recv(Network* network)
         {
             return -2;
         }
-        if (network->recv(&c, 1) == -1)
+        if (recvRest(network, &c, 1) == -1)
         {
             return -1;
         }
@@ -218,16 +251,10 @@ int MQTTGWPacket::recv(Network* network)
         }
 
         /* read Payload */
-        int remlen = network->recv(_data, _remainingLength);
-
-        if (remlen == -1)
+        if (recvRest(network, _data, _remainingLength) == -1)
         {
             return -1;
         }
-        else if (remlen != _remainingLength)
-        {
-            return -2;
-        }
     }
     return 1 + len + _remainingLength;
 }
-- 
2.43.0


From 2ef91d41022ee1045320ac529fed006688d1949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 08/80] fix: malformed packets from the broker end that
 client's connection

Acknowledgements, CONNACK and PUBLISH shorter than their own fields were
parsed beyond the end of the data, or without any data.
---
 MQTTSNGateway/src/MQTTGWPacket.cpp           | 38 ++++++++++++++++++++
 MQTTSNGateway/src/MQTTGWPacket.h             |  1 +
 MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp |  2 +-
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 065b4b4..eb00d22 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -256,9 +256,47 @@ int MQTTGWPacket::recv(Network* network)
             return -1;
         }
     }
+
+    if (!isComplete())
+    {
+        return -2;
+    }
     return 1 + len + _remainingLength;
 }
 
+/**
+ * @return true when the packet contains all the fields a packet of its type is made of
+ */
+bool MQTTGWPacket::isComplete(void)
+{
+    int fields = 0;
+
+    switch (getType())
+    {
+    case PUBLISH:
+        if (_header.bits.qos > 2 || _remainingLength < 2)
+        {
+            return false;
+        }
+        fields = 2 + 256 * _data[0] + _data[1] + (_header.bits.qos > 0 ? 2 : 0);
+        break;
+    case CONNACK:
+    case PUBACK:
+    case PUBREC:
+    case PUBREL:
+    case PUBCOMP:
+    case UNSUBACK:
+        fields = 2;
+        break;
+    case SUBACK:
+        fields = 3;
+        break;
+    default:
+        break;
+    }
+    return _remainingLength >= fields;
+}
+
 int MQTTGWPacket::send(Network* network)
 {
     unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 46df326..728cce9 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -240,6 +240,7 @@ public:
 
 private:
     void clearData(void);
+    bool isComplete(void);
     Header _header;
     int _remainingLength;
     unsigned char* _data;
diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
index b702ab5..733c826 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
@@ -164,7 +164,7 @@ void BrokerRecvTask::run(void)
 
                                 delete packet;
 
-                                if ((rc == -1 || rc == -2) && (client->isActive() || client->isSleep() || client->isAwake()))
+                                if (rc == -2 || rc == -3 || (rc == -1 && (client->isActive() || client->isSleep() || client->isAwake())))
                                 {
                                     client->getNetwork()->close();
                                     client->disconnected();
-- 
2.43.0


From dbda2c50a29b34bdb2796d07d49cfec604317cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 09/80] fix: MQTT packets larger than 1024 octets overflowed
 the stack

send() and print() copied the packet into fixed buffers; a broker PUBLISH or a
CONNECT with a long will overran them.
---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index eb00d22..6ffcf4e 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -299,11 +299,15 @@ bool MQTTGWPacket::isComplete(void)
 
 int MQTTGWPacket::send(Network* network)
 {
-    unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
-    memset(buf, 0, MQTTSNGW_MAX_PACKET_SIZE);
+    unsigned char* buf = (unsigned char*) malloc(getPacketLength());
+    if (!buf)
+    {
+        return -1;
+    }
     int len = getPacketData(buf);
-    return network->send(buf, len);
-
+    int rc = network->send(buf, len);
+    free(buf);
+    return rc;
 }
 
 int MQTTGWPacket::getAck(Ack* ack)
@@ -541,7 +545,10 @@ int MQTTGWPacket::getPacketData(unsigned char* buf)
     *ptr++ = _header.byte;
     int len = MQTTPacket_encode((char*) ptr, _remainingLength);
     ptr += len;
-    memcpy(ptr, _data, _remainingLength);
+    if (_remainingLength > 0)
+    {
+        memcpy(ptr, _data, _remainingLength);
+    }
     return 1 + len + _remainingLength;
 }
 
@@ -667,10 +674,16 @@ void MQTTGWPacket::setMsgId(int msgId)
 
 char* MQTTGWPacket::print(char* pbuf)
 {
-    uint8_t packetData[MQTTSNGW_MAX_PACKET_SIZE];
     char* ptr = pbuf;
     char** pptr = &pbuf;
-    int len = getPacketData(packetData);
+    int len = getPacketLength();
+    uint8_t* packetData = (uint8_t*) malloc(len);
+    if (!packetData)
+    {
+        *pbuf = 0;
+        return ptr;
+    }
+    getPacketData(packetData);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
     for (int i = 0; i < size; i++)
     {
@@ -678,6 +691,7 @@ char* MQTTGWPacket::print(char* pbuf)
         *pptr += 3;
     }
     **pptr = 0;
+    free(packetData);
     return ptr;
 }
 
-- 
2.43.0


From af399eab5103a2dddb4b829af73e2f68b988dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 10/80] fix: MQTTGWPacket::setMsgId overwrote the end of a
 PUBLISH topic, clearData kept a freed pointer

Topic names longer than 255 octets were also cut by getTopic().
---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 25 +++++++++++++------------
 MQTTSNGateway/src/MQTTGWPacket.h   |  2 +-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 6ffcf4e..01a85f5 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -563,6 +563,7 @@ void MQTTGWPacket::clearData(void)
     if (_data)
     {
         free(_data);
+        _data = 0;
     }
     _header.byte = 0;
     _remainingLength = 0;
@@ -650,10 +651,11 @@ void MQTTGWPacket::setMsgId(int msgId)
         pub.msgId = 0;
         getPUBLISH(&pub);
         pub.msgId = msgId;
-        ptr = _data + pub.topiclen;
-        writeInt(&ptr, pub.msgId);
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        if (_header.bits.qos > 0)
+        {
+            ptr = _data + 2 + pub.topiclen;
+            writeInt(&ptr, pub.msgId);
+        }
         break;
     case SUBSCRIBE:
     case UNSUBSCRIBE:
@@ -699,15 +701,14 @@ MQTTGWPacket& MQTTGWPacket::operator =(MQTTGWPacket& packet)
 {
     clearData();
     this->_header.byte = packet._header.byte;
-    this->_remainingLength = packet._remainingLength;
-    _data = (unsigned char*) calloc(_remainingLength, 1);
-    if (_data)
+    if (packet._remainingLength > 0)
     {
-        memcpy(this->_data, packet._data, _remainingLength);
-    }
-    else
-    {
-        clearData();
+        _data = (unsigned char*) calloc(packet._remainingLength, 1);
+        if (_data)
+        {
+            this->_remainingLength = packet._remainingLength;
+            memcpy(this->_data, packet._data, _remainingLength);
+        }
     }
     return *this;
 }
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 728cce9..784afc4 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -198,7 +198,7 @@ typedef struct
  */
 typedef struct
 {
-    unsigned char len;
+    unsigned short len;
     char* data;
 } UTF8String;
 
-- 
2.43.0


From 5defeb978e45803268a01f70f6632378601211d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 11/80] fix: message type and message id are only read where
 the packet has them

getType(), getMsgId() and friends indexed the buffer with an unchecked decode
result and with fixed offsets, beyond the end of short packets.
---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 172 ++++++++-------------------
 MQTTSNGateway/src/MQTTSNGWPacket.h   |   2 +
 2 files changed, 51 insertions(+), 123 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index f7a51ab..addec2b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -106,24 +106,14 @@ int MQTTSNPacket::recv(SensorNetwork* network)
 
 int MQTTSNPacket::getType(void)
 {
-    if (_bufLen == 0)
-    {
-        return 0;
-    }
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return _buf[p];
+    int p = getTypePos();
+    return p > 0 ? _buf[p] : 0;
 }
 
 bool MQTTSNPacket::isQoSMinusPUBLISH(void)
 {
-    if (_bufLen == 0)
-    {
-        return false;;
-    }
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return ((_buf[p] == MQTTSN_PUBLISH) && ((_buf[p + 1] & 0x60) == 0x60));
+    int p = getTypePos();
+    return p > 0 && p + 1 < _bufLen && _buf[p] == MQTTSN_PUBLISH && (_buf[p + 1] & 0x60) == 0x60;
 }
 
 unsigned char* MQTTSNPacket::getPacketData(void)
@@ -426,46 +416,61 @@ char* MQTTSNPacket::print(char* pbuf)
     return ptr;
 }
 
-char* MQTTSNPacket::getMsgId(char* pbuf)
+/**
+ * @return the message type's position in the packet, 0 if the packet doesn't contain one
+ */
+int MQTTSNPacket::getTypePos(void)
 {
     int value = 0;
-    int p = 0;
+    int p = _bufLen > 0 ? MQTTSNPacket_decode(_buf, _bufLen, &value) : 0;
+    return p > 0 && p < _bufLen ? p : 0;
+}
+
+/**
+ * @return the message id's position in the packet, 0 if the packet doesn't contain one
+ */
+int MQTTSNPacket::getMsgIdPos(void)
+{
+    int p = getTypePos();
 
     switch (getType())
     {
     case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        if (_buf[p + 1] & 0x80)
-        {
-            sprintf(pbuf, "+%02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
-        else
-        {
-            sprintf(pbuf, " %02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
+    case MQTTSN_SUBACK:
+        p += 4;
         break;
     case MQTTSN_PUBACK:
     case MQTTSN_REGISTER:
     case MQTTSN_REGACK:
-        sprintf(pbuf, " %02X%02X", _buf[4], _buf[5]);
+        p += 3;
+        break;
+    case MQTTSN_SUBSCRIBE:
+    case MQTTSN_UNSUBSCRIBE:
+        p += 2;
         break;
     case MQTTSN_PUBREC:
     case MQTTSN_PUBREL:
     case MQTTSN_PUBCOMP:
     case MQTTSN_UNSUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[2], _buf[3]);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        sprintf(pbuf, " %02X%02X", _buf[p + 2], _buf[p + 3]);
-        break;
-    case MQTTSN_SUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[5], _buf[6]);
+        p += 1;
         break;
     default:
+        return 0;
+    }
+    return p + 1 < _bufLen ? p : 0;
+}
+
+char* MQTTSNPacket::getMsgId(char* pbuf)
+{
+    int p = getMsgIdPos();
+
+    if (p == 0)
+    {
         sprintf(pbuf, "    ");
-        break;
+    }
+    else
+    {
+        sprintf(pbuf, "%c%02X%02X", getType() == MQTTSN_PUBLISH && isDuplicate() ? '+' : ' ', _buf[p], _buf[p + 1]);
     }
     if (strcmp(pbuf, " 0000") == 0)
     {
@@ -476,101 +481,22 @@ char* MQTTSNPacket::getMsgId(char* pbuf)
 
 int MQTTSNPacket::getMsgId(void)
 {
-    int value = 0;
-    int p = 0;
-    int msgId = 0;
-    char* ptr = 0;
-
-    switch (getType())
-    {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        ptr = (char*) _buf + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        ptr = (char*) _buf + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBACK:
-        ptr = (char*) _buf + 5;
-        msgId = readInt((char**) &ptr);
-        break;
-    default:
-        break;
-    }
-    return msgId;
+    int p = getMsgIdPos();
+    return p > 0 ? 256 * _buf[p] + _buf[p + 1] : 0;
 }
 
 void MQTTSNPacket::setMsgId(uint16_t msgId)
 {
-    int value = 0;
-    int p = 0;
-    //unsigned char* ptr = 0;
-
-    switch (getType())
+    int p = getMsgIdPos();
+    if (p > 0)
     {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 4] = (unsigned char) (msgId / 256);
-        _buf[p + 5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        _buf[4] = (unsigned char) (msgId / 256);
-        _buf[5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        _buf[2] = (unsigned char) (msgId / 256);
-        _buf[3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 2] = (unsigned char) (msgId / 256);
-        _buf[p + 3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBACK:
-        _buf[5] = (unsigned char) (msgId / 256);
-        _buf[6] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 5;
-        //writeInt(&ptr, msgId);
-        break;
-    default:
-        break;
+        _buf[p] = (unsigned char) (msgId / 256);
+        _buf[p + 1] = (unsigned char) (msgId % 256);
     }
 }
 
 bool MQTTSNPacket::isDuplicate(void)
 {
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return (_buf[p + 1] & 0x80);
+    int p = getTypePos();
+    return p > 0 && p + 1 < _bufLen && (_buf[p + 1] & 0x80);
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 4ac3007..72fba27 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -96,6 +96,8 @@ public:
     char* print(char* buf);
 
 private:
+    int getTypePos(void);
+    int getMsgIdPos(void);
     unsigned char* _buf;    // Ptr to a packet data
     int _bufLen; // length of the packet data
 };
-- 
2.43.0


From 0740d870f8b903d6454dc4b64c6a7defe54e42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 12/80] fix: packets too long to serialise were read from
 beyond the buffer, WILLTOPICUPD QoS overwrote its neighbours

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 14 ++++++++++++--
 MQTTSNGateway/src/MQTTSNGWPacket.h   |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index addec2b..afcacc0 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -72,11 +72,18 @@ int MQTTSNPacket::serialize(uint8_t* buf)
     return _bufLen;
 }
 
-int MQTTSNPacket::desirialize(unsigned char* buf, unsigned short len)
+int MQTTSNPacket::desirialize(unsigned char* buf, int len)
 {
     if (_buf)
     {
         free(_buf);
+        _buf = nullptr;
+    }
+    _bufLen = 0;
+
+    if (len <= 0)
+    {
+        return 0;   // there is no packet, e.g. it was too long to be serialized
     }
 
     _buf = (unsigned char*) calloc(len, sizeof(unsigned char));
@@ -393,7 +400,10 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 
 int MQTTSNPacket::getWILLTOPICUPD(uint8_t* willQoS, uint8_t* willRetain, MQTTSNString* willTopic)
 {
-    return MQTTSNDeserialize_willtopicupd((int*) willQoS, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    int qos = 0;
+    int rc = MQTTSNDeserialize_willtopicupd(&qos, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    *willQoS = (uint8_t) qos;
+    return rc;
 }
 
 int MQTTSNPacket::getWILLMSGUPD(MQTTSNString* willMsg)
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 72fba27..4cca98e 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -34,7 +34,7 @@ public:
     int broadcast(SensorNetwork* network);
     int recv(SensorNetwork* network);
     int serialize(uint8_t* buf);
-    int desirialize(unsigned char* buf, unsigned short len);
+    int desirialize(unsigned char* buf, int len);
     int getType(void);
     unsigned char* getPacketData(void);
     int getPacketLength(void);
-- 
2.43.0


From a920ad3668c6abe7d24e973e0d41fb8bca8e2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 13/80] fix: aggregating and QoS-1 gateways crashed at
 start-up, one client more than the maximum was admitted

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp    |  8 ++++++
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 36 +++++++++++-------------
 MQTTSNGateway/src/MQTTSNGateway.cpp      | 12 ++++++--
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 8e0e347..ba510a5 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -64,11 +64,19 @@ void Adapter::setup(const char* adpterName, AdapterType adapterType)
     idSecure.cstring = const_cast<char*>(nameSecure.c_str());
 
     Client* client = _gateway->getClientList()->createClient(0, &id, true, false, TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw EXCEPTION("Adapter::setup Can't create a client. MaxNumberOfClients is too small.", 0);
+    }
     setClient(client, false);
     client->setAdapterType(adapterType);
 
     client = _gateway->getClientList()->createClient(0, &idSecure, true, true,
     TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw EXCEPTION("Adapter::setup Can't create a client. MaxNumberOfClients is too small.", 0);
+    }
     setClient(client, true);
     client->setAdapterType(adapterType);
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index cc5006f..fa1c8e3 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -58,8 +58,11 @@ ClientList::~ClientList()
 
 void ClientList::initialize(bool aggregate)
 {
-    _maxClients = _gateway->getGWParams()->maxClients;
-    _clientsPool->allocate(_gateway->getGWParams()->maxClients);
+    GatewayParams* params = _gateway->getGWParams();
+    _maxClients = params->maxClients;
+
+    /* each adapter needs two clients of its own */
+    _clientsPool->allocate(_maxClients + (params->aggregatingGw ? 2 : 0) + (params->qosMinus1 ? 2 : 0));
 
     if (_gateway->getGWParams()->clientAuthentication)
     {
@@ -71,11 +74,6 @@ void ClientList::initialize(bool aggregate)
         setClientList(type);
         _authorize = true;
     }
-
-    if (_gateway->getGWParams()->predefinedTopic)
-    {
-        setPredefinedTopics(aggregate);
-    }
 }
 
 void ClientList::setClientList(int type)
@@ -154,19 +152,19 @@ bool ClientList::createList(const char* fileName, int type)
 
             if (netAddr.setAddress(&addr) == 0)
             {
-                qos_1 = (data.find("QoS-1") != string::npos);
-                forwarder = (data.find("forwarder") != string::npos);
-                secure = (data.find("secureConnection") != string::npos);
-                stable = !(data.find("unstableLine") != string::npos);
-                if ((qos_1 && type == QOSM1PROXY_TYPE) || (!qos_1 && type == AGGREGATER_TYPE))
+                GatewayParams* params = _gateway->getGWParams();
+                qos_1 = (addr.find("QoS-1") != string::npos) && params->qosMinus1;
+                forwarder = (addr.find("forwarder") != string::npos) && params->forwarder;
+                secure = (addr.find("secureConnection") != string::npos);
+                stable = !(addr.find("unstableLine") != string::npos);
+                if (forwarder)
                 {
-                    createClient(&netAddr, &clientId, stable, secure, type);
-                }
-                else if (forwarder && type == FORWARDER_TYPE)
-                {
-                    _gateway->getAdapterManager()->getForwarderList()->addForwarder(&netAddr, &clientId);
+                    if (type == FORWARDER_TYPE)
+                    {
+                        _gateway->getAdapterManager()->getForwarderList()->addForwarder(&netAddr, &clientId);
+                    }
                 }
-                else if (type == TRANSPEARENT_TYPE)
+                else if (qos_1 ? type == QOSM1PROXY_TYPE : (type == AGGREGATER_TYPE || type == TRANSPEARENT_TYPE))
                 {
                     createClient(&netAddr, &clientId, stable, secure, type);
                 }
@@ -476,8 +474,6 @@ void ClientsPool::allocate(int maxClients)
 {
     Client* cl = nullptr;
 
-    _firstClient = new Client();
-
     for (int i = 0; i < maxClients; i++)
     {
         if ((cl = new Client()) == nullptr)
diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index d672268..426ff48 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -303,11 +303,17 @@ void Gateway::initialize(int argc, char** argv)
     /*  Setup max PacketEventQue size  */
     _packetEventQue.setMaxSize(_params.maxInflightMsgs * _params.maxClients);
 
-    /*  Initialize adapters */
+    /*  Setup ClientList  */
+    _clientList->initialize(_params.aggregatingGw);
+
+    /*  Initialize adapters. They take their clients from the ClientList. */
     _adapterManager->initialize(_params.gatewayName, _params.aggregatingGw, _params.forwarder, _params.qosMinus1);
 
-    /*  Setup ClientList and Predefined topics  */
-    _clientList->initialize(_params.aggregatingGw);
+    /*  Setup Predefined topics  */
+    if (_params.predefinedTopic)
+    {
+        _clientList->setPredefinedTopics(_params.aggregatingGw);
+    }
 
     /*  SensorNetwork initialize */
     _sensorNetwork.initialize();
-- 
2.43.0


From e5e8806505168ba467e97b0c0cb2eae50f38ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 14/80] fix: a client id that is the beginning of another one
 was taken for it

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index fa1c8e3..30202c1 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -311,6 +311,7 @@ Client* ClientList::getClient(MQTTSNString* clientId)
     _mutex.lock();
     Client* client = _firstClient;
     const char* clID = clientId->cstring;
+    size_t len = MQTTSNstrlen(*clientId);
 
     if (clID == nullptr)
     {
@@ -319,7 +320,8 @@ Client* ClientList::getClient(MQTTSNString* clientId)
 
     while (client != nullptr)
     {
-        if (strncmp((const char*) client->getClientId(), clID, MQTTSNstrlen(*clientId)) == 0)
+        /* the whole ID has to be the same, not only the beginning of it */
+        if (strlen(client->getClientId()) == len && memcmp(client->getClientId(), clID, len) == 0)
         {
             _mutex.unlock();
             return client;
-- 
2.43.0


From 48324de161ecc647da1bd0dc3eb167951182017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 15/80] fix: predefined topic list: clients were created twice,
 malformed lines ended the gateway, UTF-8 names lost bytes

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 41 +++++++++++++++++-------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 30202c1..6db04ad 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -26,6 +26,21 @@ char* currentDateTime(void);
  =====================================*/
 const char* common_topic = "*";
 
+/* erase spaces, tabs, line ends and full-width spaces in a line of a list file */
+static void eraseSpaces(string& data)
+{
+    size_t pos;
+
+    while ((pos = data.find_first_of(" \t\r\n")) != string::npos)
+    {
+        data.erase(pos, 1);
+    }
+    while ((pos = data.find("　")) != string::npos)
+    {
+        data.erase(pos, strlen("　"));
+    }
+}
+
 ClientList::ClientList(Gateway* gw)
 {
     _clientCnt = 0;
@@ -137,10 +152,7 @@ bool ClientList::createList(const char* fileName, int type)
                 continue;
             }
             string data = string(buf);
-            while ((pos = data.find_first_of(" 　\t\n")) != string::npos)
-            {
-                data.erase(pos, 1);
-            }
+            eraseSpaces(data);
             if (data.empty())
             {
                 continue;
@@ -200,22 +212,24 @@ bool ClientList::readPredefinedList(const char* fileName, bool aggregate)
                 continue;
             }
             string data = string(buf);
-            while ((pos0 = data.find_first_of(" 　\t\n")) != string::npos)
-            {
-                data.erase(pos0, 1);
-            }
+            eraseSpaces(data);
             if (data.empty())
             {
                 continue;
             }
 
             pos0 = data.find_first_of(",");
-            pos1 = data.find(",", pos0 + 1);
+            pos1 = (pos0 == string::npos) ? string::npos : data.find(",", pos0 + 1);
+            unsigned long topicID = (pos1 == string::npos) ? 0 : strtoul(data.c_str() + pos1 + 1, nullptr, 10);
+            if (topicID == 0 || topicID > 0xffff)
+            {
+                WRITELOG("Invalid Predefined Topic     %s\n", data.c_str());
+                continue;
+            }
             string id = data.substr(0, pos0);
             clientId.cstring = strdup(id.c_str());
             string topicName = data.substr(pos0 + 1, pos1 - pos0 - 1);
-            uint16_t topicID = stoul(data.substr(pos1 + 1));
-            createPredefinedTopic(&clientId, topicName, topicID, aggregate);
+            createPredefinedTopic(&clientId, topicName, (uint16_t) topicID, aggregate);
             free(clientId.cstring);
         }
         fclose(fp);
@@ -424,7 +438,10 @@ Client* ClientList::createPredefinedTopic(MQTTSNString* clientId, string topicNa
             return nullptr;
         }
 
-        client = createClient(NULL, clientId, aggregate);
+        if (client == nullptr)
+        {
+            client = createClient(NULL, clientId, aggregate ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);
+        }
 
         if (client == nullptr)
         {
-- 
2.43.0


From 0de49fb3b5df52a4225210cc561c59ffea5a7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 16/80] fix: a topic filter like +/# also matches the parent
 level

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 68cf1fe..9d650bd 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -148,7 +148,7 @@ bool Topic::isMatch(string* topicName)
         {
             string subtopic = topicName->substr(pos);
             string subtopict = _topicName->substr(tpos, tloc - tpos);
-            if (subtopic != subtopict)
+            if (subtopic != subtopict && subtopict != wildcards)
             {
                 return false;
             }
-- 
2.43.0


From 69602374519c615519e8cd80bf8e687e4a18efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 17/80] fix: a normal topic id was confused with the predefined
 id of the same name, a name could have only one predefined id

---
 .../src/MQTTSNGWSubscribeHandler.cpp          | 13 ++++-----
 MQTTSNGateway/src/MQTTSNGWTopic.cpp           | 28 ++++++++-----------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 797e36b..6ce4de6 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -86,16 +86,13 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     }
     else if (topicFilter.type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        topic = client->getTopics()->getTopicByName(&topicFilter);
+        topic = client->getTopics()->add(&topicFilter);
         if (topic == nullptr)
         {
-            topic = client->getTopics()->add(&topicFilter);
-            if (topic == nullptr)
-            {
-                WRITELOG("%s Client(%s) can't add the Topic.%s\n",
-                ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
-                goto RespExit;
-            }
+            WRITELOG("%s Client(%s) can't add the Topic.%s\n",
+            ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            topicFilter.data.id = 0;
+            goto RespExit;
         }
         topicId = topic->getTopicId();
         subscribe = new MQTTGWPacket();
diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 9d650bd..5c3f887 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -230,33 +230,29 @@ Topic* Topics::add(const MQTTSN_topicid* topicid)
         return 0;
     }
 
-    Topic* topic = getTopicByName(topicid);
-
-    if (topic)
-    {
-        return topic;
-    }
     string name(topicid->data.long_.name, topicid->data.long_.len);
     return add(name.c_str(), 0);
 }
 
 Topic* Topics::add(const char* topicName, uint16_t id)
 {
-    MQTTSN_topicid topicId;
+    Topic* topic = _first;
 
-    if (_cnt >= MAX_TOPIC_PAR_CLIENT)
+    /* a name can have a normal topic id as well as predefined ones */
+    while (topic)
     {
-        return 0;
+        if (topic->_topicName->compare(topicName) == 0
+                && (id == 0 ? topic->_type == MQTTSN_TOPIC_TYPE_NORMAL :
+                        (topic->_type == MQTTSN_TOPIC_TYPE_PREDEFINED && topic->_topicId == id)))
+        {
+            return topic;
+        }
+        topic = topic->_next;
     }
 
-    topicId.data.long_.name = (char*) const_cast<char*>(topicName);
-    topicId.data.long_.len = strlen(topicName);
-
-    Topic* topic = getTopicByName(&topicId);
-
-    if (topic)
+    if (_cnt >= MAX_TOPIC_PAR_CLIENT)
     {
-        return topic;
+        return 0;
     }
 
     topic = new Topic();
-- 
2.43.0


From 030705466b379610cdeba396bf4e578eb938db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 18/80] fix: REGISTER crashed the gateway when the client's
 topic table was full

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 3824173..a31c649 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -213,10 +213,19 @@ void MQTTSNPublishHandler::handleRegister(Client* client, MQTTSNPacket* packet)
         topicid.data.long_.len = topicName.lenstring.len;
         topicid.data.long_.name = topicName.lenstring.data;
 
-        id = client->getTopics()->add(&topicid)->getTopicId();
+        Topic* topic = client->getTopics()->add(&topicid);
 
         MQTTSNPacket* regAck = new MQTTSNPacket();
-        regAck->setREGACK(id, msgId, MQTTSN_RC_ACCEPTED);
+        if (topic != nullptr)
+        {
+            regAck->setREGACK(topic->getTopicId(), msgId, MQTTSN_RC_ACCEPTED);
+        }
+        else
+        {
+            WRITELOG("%s Client(%s) can't add the Topic.%s\n",
+            ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            regAck->setREGACK(0, msgId, MQTTSN_RC_REJECTED_CONGESTED);
+        }
         Event* ev = new Event();
         ev->setClientSendEvent(client, regAck);
         _gateway->getClientSendQue()->post(ev);
-- 
2.43.0


From 30c186b57af74c294dcc1443054a9c18b9d5fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 19/80] fix: the message id table filled up with completed
 exchanges, later acknowledgements were lost

---
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp |  7 ++++---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp    |  4 ++--
 MQTTSNGateway/src/MQTTSNGWTopic.cpp             | 11 ++++++++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 69f3b41..fc1128e 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -114,13 +114,14 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
         connectData->flags.bits.password = 1;
     }
 
+    /* reset the table of msgNo and TopicId pare. Requests of the old connection are not acknowledged any more. */
+    client->clearWaitedPubTopicId();
+    client->clearWaitedSubTopicId();
+
     client->setSessionStatus(false);
     if (data.cleansession)
     {
         connectData->flags.bits.cleanstart = 1;
-        /* reset the table of msgNo and TopicId pare */
-        client->clearWaitedPubTopicId();
-        client->clearWaitedSubTopicId();
 
         /* renew the TopicList */
         if (topics)
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index a31c649..ce302c4 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -120,8 +120,8 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             topicid.data.long_.len = pub.topiclen;
         }
     }
-    /* Save a msgId & a TopicId pare for PUBACK */
-    if (msgId && qos > 0 && qos < 3)
+    /* Save a msgId & a TopicId pare for PUBACK, which is the only one that needs it */
+    if (msgId && qos == 1)
     {
         client->setWaitedPubTopicId(msgId, tid, &topicid);
     }
diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 5c3f887..6694198 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -403,9 +403,14 @@ TopicIdMapElement::TopicIdMapElement(uint16_t msgId, uint16_t topicId, MQTTSN_to
 
     if (_type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)
+        /* the name is a part of a packet, it is not terminated by NUL */
+        for (int i = 0; i < topic->data.long_.len && topic->data.long_.name[i] != 0; i++)
         {
-            _wildcard = 1;
+            if (topic->data.long_.name[i] == '#' || topic->data.long_.name[i] == '+')
+            {
+                _wildcard = 1;
+                break;
+            }
         }
     }
 }
@@ -522,12 +527,12 @@ void TopicIdMap::erase(uint16_t msgId)
                 p->_next->_prev = p->_prev;
             }
             delete p;
+            _cnt--;
             break;
 
         }
         p = p->_next;
     }
-    _cnt--;
 }
 
 void TopicIdMap::clear(void)
-- 
2.43.0


From 3fa51cf8188244b8848c4a5738d3f58e3136d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 20/80] fix: PUBLISH on short and unknown topics: PUBACK of
 another topic id, forwarding without a topic

A PUBACK for a short topic carried the two characters in the wrong order, QoS 0 messages (and QoS 1/2
messages with message id 0) on an unknown topic id were sent to the broker without a topic, and a predefined
topic for all clients was unknown once the client's own table was full. QoS -1 messages are kept for the proxy
while its broker connection is down, not only while it is disabled.
---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 24 ++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index ce302c4..d5981bc 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -49,11 +49,13 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
 
     char shortTopic[2];
 
-    if (!_gateway->getAdapterManager()->getQoSm1Proxy()->isActive())
+    if (client->isQoSm1())
     {
-        if (client->isQoSm1())
+        QoSm1Proxy* proxy = _gateway->getAdapterManager()->getQoSm1Proxy();
+
+        if (!proxy->getAdapterClient(client)->isActive())
         {
-            _gateway->getAdapterManager()->getQoSm1Proxy()->savePacket(client, packet);
+            proxy->savePacket(client, packet);
 
             return nullptr;
         }
@@ -75,6 +77,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
     {
         shortTopic[0] = topicid.data.short_name[0];
         shortTopic[1] = topicid.data.short_name[1];
+        tid = (uint16_t) ((uint8_t) shortTopic[0] << 8 | (uint8_t) shortTopic[1]);
         pub.topic = shortTopic;
         pub.topiclen = 2;
     }
@@ -86,7 +89,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             topic = _gateway->getTopics()->getTopicById(&topicid);
             if (topic)
             {
-                topic = client->getTopics()->add(topic->getTopicName()->c_str(), topic->getTopicId());
+                client->getTopics()->add(topic->getTopicName()->c_str(), topic->getTopicId());
             }
         }
 
@@ -112,13 +115,16 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             _gateway->getClientSendQue()->post(ev1);
             return nullptr;
         }
-        if (topic)
+        if (!topic)
         {
-            pub.topic = (char*) topic->getTopicName()->data();
-            pub.topiclen = topic->getTopicName()->length();
-            topicid.data.long_.name = pub.topic;
-            topicid.data.long_.len = pub.topiclen;
+            WRITELOG("%s Invalid TopicId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            return nullptr;
         }
+
+        pub.topic = (char*) topic->getTopicName()->data();
+        pub.topiclen = topic->getTopicName()->length();
+        topicid.data.long_.name = pub.topic;
+        topicid.data.long_.len = pub.topiclen;
     }
     /* Save a msgId & a TopicId pare for PUBACK, which is the only one that needs it */
     if (msgId && qos == 1)
-- 
2.43.0


From 6dc24d34ad0384dac9f0090e2754f33e82370f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 21/80] fix: PUBLISH from the broker overtook or ignored the
 REGISTER of its topic

A second message on a topic whose REGISTER was still unanswered was sent at once, a rejected REGACK released the
message anyway and left the topic as known, messages kept for REGACK survived a new CONNECT, their list entries
leaked and their number wrapped at 256. Messages that cannot be delivered (too long, no topic id left) were sent
as empty datagrams or left unacknowledged. Topic names of one character were taken for two.
---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 57 ++++++++++++-------
 MQTTSNGateway/src/MQTTGWPublishHandler.h      |  1 +
 .../src/MQTTSNAggregateConnectionHandler.cpp  |  1 +
 MQTTSNGateway/src/MQTTSNGWClient.cpp          | 36 +++++++++++-
 MQTTSNGateway/src/MQTTSNGWClient.h            |  2 +
 .../src/MQTTSNGWConnectionHandler.cpp         |  1 +
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp  | 19 ++++++-
 MQTTSNGateway/src/MQTTSNGWTopic.cpp           |  5 +-
 MQTTSNGateway/src/MQTTSNGWTopic.h             |  2 +-
 9 files changed, 97 insertions(+), 27 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 20381f1..c1e261c 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -84,7 +84,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     MQTTSN_topicid topicId;
     uint16_t id = 0;
 
-    if (pub.topiclen <= 2)
+    if (pub.topiclen == 2)
     {
         topicId.type = MQTTSN_TOPIC_TYPE_SHORT;
         *(topicId.data.short_name) = *pub.topic;
@@ -96,7 +96,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         topicId.data.long_.name = pub.topic;
         Topic* tp = client->getTopics()->getTopicByName(&topicId);
 
-        if (tp)
+        if (tp && !client->getWaitREGACKPacketList()->isWaiting(tp->getTopicId()))
         {
             topicId.type = tp->getType();
             topicId.data.long_.len = pub.topiclen;
@@ -113,15 +113,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
             {
                 WRITELOG("%sMQTTGWPublishHandler Invalid Topic. PUBLISH message is discarded.%s\n",
                 ERRMSG_HEADER, ERRMSG_FOOTER);
-                if (pub.header.bits.qos == 1)
-                {
-                    replyACK(client, &pub, PUBACK);
-                }
-                else if (pub.header.bits.qos == 2)
-                {
-                    replyACK(client, &pub, PUBREC);
-                }
-
+                replyDiscarded(client, &pub);
                 delete snPacket;
                 return;
             }
@@ -141,6 +133,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 WRITELOG(
                         "%sMQTTGWPublishHandler Can't Add a Topic. MAX_TOPIC_PAR_CLIENT is exceeded. PUBLISH message is discarded.%s\n",
                         ERRMSG_HEADER, ERRMSG_FOOTER);
+                replyDiscarded(client, &pub);
                 delete snPacket;
                 return;
             }
@@ -155,18 +148,24 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicName.lenstring.data = topicId.data.long_.name;
 
                 uint16_t regackMsgId = client->getNextSnMsgId();
-                regPacket->setREGISTER(id, regackMsgId, &topicName);
+                topicId.data.id = id;
+                if (regPacket->setREGISTER(id, regackMsgId, &topicName) == 0
+                        || snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
+                                (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen) == 0
+                        || client->getWaitREGACKPacketList()->setPacket(snPacket, regackMsgId) == 0)
+                {
+                    WRITELOG("%sMQTTGWPublishHandler Can't send the topic name. PUBLISH message is discarded.%s\n",
+                    ERRMSG_HEADER, ERRMSG_FOOTER);
+                    replyDiscarded(client, &pub);
+                    delete regPacket;
+                    delete snPacket;
+                    return;
+                }
 
                 /* send REGISTER */
                 Event* evrg = new Event();
                 evrg->setClientSendEvent(client, regPacket);
                 _gateway->getClientSendQue()->post(evrg);
-
-                /* send PUBLISH */
-                topicId.data.id = id;
-                snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
-                        (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen);
-                client->getWaitREGACKPacketList()->setPacket(snPacket, regackMsgId);
                 return;
             }
             else
@@ -179,14 +178,32 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         }
     }
 
-    snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
-            (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen);
+    if (snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
+            (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen) == 0)
+    {
+        WRITELOG("%sMQTTGWPublishHandler PUBLISH message is too long. It is discarded.%s\n", ERRMSG_HEADER, ERRMSG_FOOTER);
+        replyDiscarded(client, &pub);
+        delete snPacket;
+        return;
+    }
     Event* ev1 = new Event();
     ev1->setClientSendEvent(client, snPacket);
     _gateway->getClientSendQue()->post(ev1);
 
 }
 
+void MQTTGWPublishHandler::replyDiscarded(Client* client, Publish* pub)
+{
+    if (pub->header.bits.qos == 1)
+    {
+        replyACK(client, pub, PUBACK);
+    }
+    else if (pub->header.bits.qos == 2)
+    {
+        replyACK(client, pub, PUBREC);
+    }
+}
+
 void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 {
     MQTTGWPacket* pubAck = new MQTTGWPacket();
diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.h b/MQTTSNGateway/src/MQTTGWPublishHandler.h
index c32faee..176335e 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.h
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.h
@@ -38,6 +38,7 @@ public:
     void handleAggregatePubrel(Client* client, MQTTGWPacket* packet);
 
 private:
+    void replyDiscarded(Client* client, Publish* pub);
     void replyACK(Client* client, Publish* pub, int type);
 
     Gateway* _gateway;
diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 8e81351..d2b9cd7 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -68,6 +68,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
     Topics* topics = client->getTopics();
 
     /* CONNECT was not sent yet. prepare Connect data */
+    client->getWaitREGACKPacketList()->clear();
 
     client->setSessionStatus(false);
     if (data.cleansession)
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index b209265..ae2172d 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -609,6 +609,11 @@ WaitREGACKPacketList::WaitREGACKPacketList()
 }
 
 WaitREGACKPacketList::~WaitREGACKPacketList()
+{
+    clear();
+}
+
+void WaitREGACKPacketList::clear(void)
 {
     waitREGACKPacket* p = _first;
     while (p)
@@ -617,10 +622,38 @@ WaitREGACKPacketList::~WaitREGACKPacketList()
         delete p;
         p = q;
     }
+    _first = nullptr;
+    _end = nullptr;
+    _cnt = 0;
+}
+
+/* true: a PUBLISH of the topic is waiting for REGACK */
+bool WaitREGACKPacketList::isWaiting(uint16_t topicId)
+{
+    for (waitREGACKPacket* p = _first; p; p = p->_next)
+    {
+        uint8_t dup, retained;
+        uint8_t* payload;
+        int qos, payloadlen;
+        uint16_t msgId;
+        MQTTSN_topicid topic;
+
+        if (p->_packet->getPUBLISH(&dup, &qos, &retained, &msgId, &topic, &payload, &payloadlen)
+                && topic.data.id == topicId)
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 int WaitREGACKPacketList::setPacket(MQTTSNPacket* packet, uint16_t REGACKMsgId)
 {
+    if (_cnt == UINT8_MAX)
+    {
+        return 0;
+    }
+
     waitREGACKPacket* elm = new waitREGACKPacket(packet, REGACKMsgId);
     if (elm == nullptr)
     {
@@ -681,8 +714,9 @@ void WaitREGACKPacketList::erase(uint16_t REGACKMsgId)
                 p->_next->_prev = p->_prev;
             }
             _cnt--;
+            p->_packet = nullptr;  // The packet is deleted after sending to Client.
+            delete p;
             break;
-            // Do not delete element. Element is deleted after sending to Client.
         }
         p = p->_next;
     }
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index 6a62f16..be6737c 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -139,6 +139,8 @@ public:
     int setPacket(MQTTSNPacket* packet, uint16_t REGACKMsgId);
     MQTTSNPacket* getPacket(uint16_t REGACKMsgId);
     void erase(uint16_t REGACKMsgId);
+    bool isWaiting(uint16_t topicId);
+    void clear(void);
     uint8_t getCount(void);
 
 private:
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index fc1128e..c1f3e7b 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -117,6 +117,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
     /* reset the table of msgNo and TopicId pare. Requests of the old connection are not acknowledged any more. */
     client->clearWaitedPubTopicId();
     client->clearWaitedSubTopicId();
+    client->getWaitREGACKPacketList()->clear();
 
     client->setSessionStatus(false);
     if (data.cleansession)
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index d5981bc..ad4cf96 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -256,9 +256,22 @@ void MQTTSNPublishHandler::handleRegAck(Client* client, MQTTSNPacket* packet)
         if (regAck != nullptr)
         {
             client->getWaitREGACKPacketList()->erase(msgId);
-            Event* ev = new Event();
-            ev->setClientSendEvent(client, regAck);
-            _gateway->getClientSendQue()->post(ev);
+            if (rc == MQTTSN_RC_ACCEPTED)
+            {
+                Event* ev = new Event();
+                ev->setClientSendEvent(client, regAck);
+                _gateway->getClientSendQue()->post(ev);
+            }
+            else
+            {
+                /* the client doesn't know the topic id */
+                WRITELOG("%s Client(%s) rejected the Topic.%s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+                if (id > 0)
+                {
+                    client->getTopics()->eraseNormal(id);
+                }
+                delete regAck;
+            }
         }
 
         if (client->isHoldPingReqest() && client->getWaitREGACKPacketList()->getCount() == 0)
diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 6694198..1f9e931 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -326,7 +326,8 @@ Topic* Topics::match(const MQTTSN_topicid* topicid)
     return 0;
 }
 
-void Topics::eraseNormal(void)
+/* topicId 0: all normal topics */
+void Topics::eraseNormal(uint16_t topicId)
 {
     Topic* topic = _first;
     Topic* next = nullptr;
@@ -334,7 +335,7 @@ void Topics::eraseNormal(void)
 
     while (topic)
     {
-        if (topic->_type == MQTTSN_TOPIC_TYPE_NORMAL)
+        if (topic->_type == MQTTSN_TOPIC_TYPE_NORMAL && (topicId == 0 || topic->_topicId == topicId))
         {
             next = topic->_next;
             if (_first == topic)
diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.h b/MQTTSNGateway/src/MQTTSNGWTopic.h
index f796b8b..fb0f8cc 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.h
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.h
@@ -64,7 +64,7 @@ public:
     Topic* getFirstTopic(void);
     Topic* getNextTopic(Topic* topic);
     Topic* match(const MQTTSN_topicid* topicid);
-    void eraseNormal(void);
+    void eraseNormal(uint16_t topicId = 0);
     uint16_t getNextTopicId();
     void print(void);
     uint8_t getCount(void);
-- 
2.43.0


From 727e87aed97167d9ef13bfe2bda05e617c15e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 22/80] fix: messages for sleeping clients were reordered, lost
 or acknowledged twice

Stored messages were posted to the bounded packet queue behind newer ones, a PINGREQ held for them was never
sent when none of them needed a REGISTER, a full buffer leaked, messages waiting for REGACK were stuck when
PINGRESP came first, and messages of an old session were kept for the next one. QoS 1 and 2 messages were
acknowledged by the gateway although the client acknowledges them after it woke up, and acknowledgements of
an awake client were dropped. DISCONNECT with a duration from a sleeping client ended its session.
---
 MQTTSNGateway/src/MQTTGWConnectionHandler.cpp |  7 ++++
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 17 +++-------
 .../src/MQTTSNAggregateConnectionHandler.cpp  | 27 ++-------------
 .../src/MQTTSNAggregateConnectionHandler.h    |  2 --
 MQTTSNGateway/src/MQTTSNGWClient.cpp          | 16 ++++++++-
 MQTTSNGateway/src/MQTTSNGWClient.h            |  1 +
 .../src/MQTTSNGWConnectionHandler.cpp         | 21 ++----------
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.h |  1 -
 .../src/MQTTSNGWPacketHandleTask.cpp          | 20 +++++++++++
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h  |  1 +
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp  | 33 ++++++++++++++-----
 MQTTSNGateway/src/MQTTSNGWPublishHandler.h    |  1 +
 12 files changed, 78 insertions(+), 69 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
index 621b950..07d5e21 100644
--- a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
@@ -79,6 +79,13 @@ void MQTTGWConnectionHandler::handleConnack(Client* client, MQTTGWPacket* packet
 
 void MQTTGWConnectionHandler::handlePingresp(Client* client, MQTTGWPacket* packet)
 {
+    if (client->isAwake() && client->getWaitREGACKPacketList()->getCount() > 0)
+    {
+        /* it has to stay awake for messages waiting for REGACK */
+        client->holdPingRequest();
+        return;
+    }
+
     MQTTSNPacket* snPacket = new MQTTSNPacket();
     snPacket->setPINGRESP();
     Event* ev1 = new Event();
diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index c1e261c..06450c9 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -47,21 +47,9 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     /* client is sleeping. save PUBLISH */
     if (client->isSleep())
     {
-        Publish pub;
-        packet->getPUBLISH(&pub);
-
         WRITELOG(FORMAT_Y_G_G, currentDateTime(), packet->getName(),
         RIGHTARROW, client->getClientId(), "is sleeping. a message was saved.");
 
-        if (pub.header.bits.qos == 1)
-        {
-            replyACK(client, &pub, PUBACK);
-        }
-        else if (pub.header.bits.qos == 2)
-        {
-            replyACK(client, &pub, PUBREC);
-        }
-
         MQTTGWPacket* msg = new MQTTGWPacket();
         *msg = *packet;
         if (msg->getType() == 0)
@@ -71,7 +59,10 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
             delete msg;
             return;
         }
-        client->setClientSleepPacket(msg);
+        if (!client->setClientSleepPacket(msg))
+        {
+            delete msg;
+        }
         return;
     }
 
diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index d2b9cd7..e61d807 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -55,7 +55,6 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         Event* ev = new Event();
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
-        sendStoredPublish(client);
         return;
     }
 
@@ -76,6 +75,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         /* reset the table of msgNo and TopicId pare */
         client->clearWaitedPubTopicId();
         client->clearWaitedSubTopicId();
+        client->clearClientSleepPacket();
 
         /* renew the TopicList */
         if (topics)
@@ -114,7 +114,6 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
         client->connackSended(MQTTSN_RC_ACCEPTED);
-        sendStoredPublish(client);
         return;
     }
 }
@@ -149,7 +148,6 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
 
-        sendStoredPublish(client);
         return;
     }
 }
@@ -171,13 +169,7 @@ void MQTTSNAggregateConnectionHandler::handleDisconnect(Client* client, MQTTSNPa
  */
 void MQTTSNAggregateConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet)
 {
-    if ((client->isSleep() || client->isAwake()) && client->getClientSleepPacket())
-    {
-        sendStoredPublish(client);
-        client->holdPingRequest();
-    }
-
-    /* create and send PINGRESP to the PacketHandler */
+    /* create and send PINGRESP to the PacketHandler. It follows the stored messages */
     client->resetPingRequest();
 
     MQTTGWPacket* pingresp = new MQTTGWPacket();
@@ -188,18 +180,3 @@ void MQTTSNAggregateConnectionHandler::handlePingreq(Client* client, MQTTSNPacke
     evt->setBrokerRecvEvent(client, pingresp);
     _gateway->getPacketEventQue()->post(evt);
 }
-
-void MQTTSNAggregateConnectionHandler::sendStoredPublish(Client* client)
-{
-    MQTTGWPacket* msg = nullptr;
-
-    while ((msg = client->getClientSleepPacket()) != nullptr)
-    {
-        client->deleteFirstClientSleepPacket(); // pop the que to delete element.
-
-        Event* ev = new Event();
-        ev->setBrokerRecvEvent(client, msg);
-        _gateway->getPacketEventQue()->post(ev);
-    }
-}
-
diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.h b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.h
index 15001b7..9fb5186 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.h
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.h
@@ -37,8 +37,6 @@ public:
     void handlePingreq(Client* client, MQTTSNPacket* packet);
 
 private:
-    void sendStoredPublish(Client* client);
-
     Gateway* _gateway;
 };
 
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index ae2172d..f2c686c 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -113,6 +113,11 @@ void Client::deleteFirstClientSleepPacket()
     _clientSleepPacketQue.pop();
 }
 
+void Client::clearClientSleepPacket()
+{
+    _clientSleepPacketQue.clear();
+}
+
 int Client::setClientSleepPacket(MQTTGWPacket* packet)
 {
     int rc = _clientSleepPacketQue.post(packet);
@@ -269,7 +274,16 @@ void Client::updateStatus(MQTTSNPacket* packet)
             _status = Cstat_Active;
             break;
         case MQTTSN_DISCONNECT:
-            disconnected();
+            uint16_t duration;
+            packet->getDISCONNECT(&duration);
+            if (duration)
+            {
+                _status = Cstat_Asleep;
+            }
+            else
+            {
+                disconnected();
+            }
             break;
         case MQTTSN_PINGREQ:
             _status = Cstat_Awake;
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index be6737c..1b130cc 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -189,6 +189,7 @@ public:
     TopicIdMapElement* getWaitedSubTopicId(uint16_t msgId);
     MQTTGWPacket* getClientSleepPacket(void);
     void deleteFirstClientSleepPacket(void);
+    void clearClientSleepPacket(void);
 
     MQTTSNPacket* getProxyPacket(void);
     void deleteFirstProxyPacket(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index c1f3e7b..c2713eb 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -82,8 +82,6 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
         Event* ev = new Event();
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
-
-        sendStoredPublish(client);
         return;
     }
 
@@ -118,6 +116,8 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
     client->clearWaitedPubTopicId();
     client->clearWaitedSubTopicId();
     client->getWaitREGACKPacketList()->clear();
+    client->clearClientSleepPacket();
+    client->resetPingRequest();
 
     client->setSessionStatus(false);
     if (data.cleansession)
@@ -283,7 +283,7 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
 {
     if ((client->isSleep() || client->isAwake()) && client->getClientSleepPacket())
     {
-        sendStoredPublish(client);
+        /* PINGREQ follows the stored messages. PacketHandleTask sends them */
         client->holdPingRequest();
     }
     else
@@ -297,18 +297,3 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
         _gateway->getBrokerSendQue()->post(evt);
     }
 }
-
-void MQTTSNConnectionHandler::sendStoredPublish(Client* client)
-{
-    MQTTGWPacket* msg = nullptr;
-
-    while ((msg = client->getClientSleepPacket()) != nullptr)
-    {
-        // ToDo:  This version can't re-send PUBLISH when PUBACK is not returned.
-        client->deleteFirstClientSleepPacket(); // pop the que to delete element.
-
-        Event* ev = new Event();
-        ev->setBrokerRecvEvent(client, msg);
-        _gateway->getPacketEventQue()->post(ev);
-    }
-}
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
index eb75177..ac4f638 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.h
@@ -37,7 +37,6 @@ public:
     void handleWillmsgupd(Client* client, MQTTSNPacket* packet);
     void handlePingreq(Client* client, MQTTSNPacket* packet);
 private:
-    void sendStoredPublish(Client* client);
 
     Gateway* _gateway;
 };
diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index 08d1cfb..d0e3f45 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -159,6 +159,12 @@ void PacketHandleTask::run()
 
             /* Reset the Timer for PINGREQ. */
             client->updateStatus(snPacket);
+
+            /* the client has woken up. send the messages saved while it was sleeping */
+            if (client->isActive() || client->isAwake())
+            {
+                sendStoredPublish(client);
+            }
         }
         /*------  Handle Messages form Broker      ---------*/
         else if (ev->getEventType() == EtBrokerRecv)
@@ -180,6 +186,20 @@ void PacketHandleTask::run()
     }
 }
 
+void PacketHandleTask::sendStoredPublish(Client* client)
+{
+    MQTTGWPacket* msg = nullptr;
+
+    while ((msg = client->getClientSleepPacket()) != nullptr)
+    {
+        // ToDo:  This version can't re-send PUBLISH when PUBACK is not returned.
+        client->deleteFirstClientSleepPacket(); // pop the que to delete element.
+        _mqttPublish->handlePublish(client, msg);
+        delete msg;
+    }
+    _mqttsnPublish->sendHeldPing(client);
+}
+
 void PacketHandleTask::aggregatePacketHandler(Client*client, MQTTSNPacket* packet)
 {
     switch (packet->getType())
diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
index 43cc57e..930c7ae 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
@@ -55,6 +55,7 @@ public:
     ~PacketHandleTask();
     void run();
 private:
+    void sendStoredPublish(Client* client);
     void aggregatePacketHandler(Client*client, MQTTSNPacket* packet);
     void aggregatePacketHandler(Client*client, MQTTGWPacket* packet);
     void transparentPacketHandler(Client*client, MQTTSNPacket* packet);
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index ad4cf96..1b32bb8 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -157,7 +157,7 @@ void MQTTSNPublishHandler::handlePuback(Client* client, MQTTSNPacket* packet)
     uint16_t msgId;
     uint8_t rc;
 
-    if (client->isActive())
+    if (client->isActive() || client->isAwake() || client->isSleep())
     {
         if (packet->getPUBACK(&topicId, &msgId, &rc) == 0)
         {
@@ -186,7 +186,7 @@ void MQTTSNPublishHandler::handleAck(Client* client, MQTTSNPacket* packet, uint8
 {
     uint16_t msgId;
 
-    if (client->isActive())
+    if (client->isActive() || client->isAwake() || client->isSleep())
     {
         if (packet->getACK(&msgId) == 0)
         {
@@ -274,18 +274,33 @@ void MQTTSNPublishHandler::handleRegAck(Client* client, MQTTSNPacket* packet)
             }
         }
 
-        if (client->isHoldPingReqest() && client->getWaitREGACKPacketList()->getCount() == 0)
+        sendHeldPing(client);
+    }
+
+}
+
+/* PINGREQ of a client that woke up is held until all its messages have been sent */
+void MQTTSNPublishHandler::sendHeldPing(Client* client)
+{
+    if (client->isHoldPingReqest() && client->getWaitREGACKPacketList()->getCount() == 0)
+    {
+        client->resetPingRequest();
+        MQTTGWPacket* ping = new MQTTGWPacket();
+        Event* evt = new Event();
+        if (client->isAggregated())
+        {
+            ping->setHeader(PINGRESP);
+            evt->setBrokerRecvEvent(client, ping);
+            _gateway->getPacketEventQue()->post(evt);
+        }
+        else
         {
             /* send PINGREQ to the broker */
-            client->resetPingRequest();
-            MQTTGWPacket* pingreq = new MQTTGWPacket();
-            pingreq->setHeader(PINGREQ);
-            Event* evt = new Event();
-            evt->setBrokerSendEvent(client, pingreq);
+            ping->setHeader(PINGREQ);
+            evt->setBrokerSendEvent(client, ping);
             _gateway->getBrokerSendQue()->post(evt);
         }
     }
-
 }
 
 void MQTTSNPublishHandler::handleAggregatePublish(Client* client, MQTTSNPacket* packet)
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.h b/MQTTSNGateway/src/MQTTSNGWPublishHandler.h
index d34b333..93a340b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.h
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.h
@@ -32,6 +32,7 @@ public:
     void handleAck(Client* client, MQTTSNPacket* packet, uint8_t packetType);
     void handleRegister(Client* client, MQTTSNPacket* packet);
     void handleRegAck(Client* client, MQTTSNPacket* packet);
+    void sendHeldPing(Client* client);
 
     void handleAggregatePublish(Client* client, MQTTSNPacket* packet);
     void handleAggregateAck(Client* client, MQTTSNPacket* packet, int type);
-- 
2.43.0


From dd1a66e7fbee510af3cd48a162ab6762177bf3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 23/80] fix: packets with a wrong length field were handled,
 reading beyond the received data

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 22 +++++++++++++++++++++-
 MQTTSNGateway/src/MQTTSNGWPacket.h   |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index afcacc0..a331c27 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -105,12 +105,32 @@ int MQTTSNPacket::recv(SensorNetwork* network)
     int len = network->read((uint8_t*) buf, MQTTSNGW_MAX_PACKET_SIZE);
     if (len > 1)
     {
-        len = desirialize(buf, len);
+        len = desirialize(buf, getCompleteLength(buf, len));
     }
     return len;
 
 }
 
+/**
+ * @return the length of the packet in the received data, 0 if there isn't a complete one
+ */
+int MQTTSNPacket::getCompleteLength(unsigned char* buf, int len)
+{
+    int packetLen = 0;
+    int lenlen = MQTTSNPacket_decode(buf, len, &packetLen);
+
+    if (lenlen < 0 || packetLen <= lenlen || packetLen > len)
+    {
+        return 0;
+    }
+    if (buf[lenlen] == MQTTSN_ENCAPSULATED)
+    {
+        /* the length field covers only the header, the encapsulated packet follows it */
+        return lenlen == 1 && packetLen >= 3 ? len : 0;
+    }
+    return packetLen;
+}
+
 int MQTTSNPacket::getType(void)
 {
     int p = getTypePos();
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 4cca98e..5fdef74 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -33,6 +33,7 @@ public:
     int unicast(SensorNetwork* network, SensorNetAddress* sendTo);
     int broadcast(SensorNetwork* network);
     int recv(SensorNetwork* network);
+    static int getCompleteLength(unsigned char* buf, int len);
     int serialize(uint8_t* buf);
     int desirialize(unsigned char* buf, int len);
     int getType(void);
-- 
2.43.0


From 5a5643e241c4ccc1f65055d206cb28f931178c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 24/80] fix: encapsulated packets: invalid lengths, buffers too
 small for the longest packet, wrong node id after a client moved, packet leak

---
 MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp  | 10 ++--
 MQTTSNGateway/src/MQTTSNGWClient.cpp          |  5 +-
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp  |  7 ++-
 .../src/MQTTSNGWEncapsulatedPacket.cpp        | 12 +++--
 MQTTSNGateway/src/MQTTSNGWForwarder.cpp       | 49 +++++++++----------
 MQTTSNGateway/src/MQTTSNGWForwarder.h         |  2 +-
 6 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
index 4fb4282..720a92f 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
@@ -128,15 +128,19 @@ Client* AdapterManager::getClient(Client* client)
 
 int AdapterManager::unicastToClient(Client* client, MQTTSNPacket* packet, ClientSendTask* task)
 {
-    char pbuf[SIZE_OF_LOG_PACKET * 3];
+    char pbuf[SIZE_OF_LOG_PACKET * 3 + 1];
     Forwarder* fwd = client->getForwarder();
     int rc = 0;
 
     if (fwd)
     {
         MQTTSNGWEncapsulatedPacket encap(packet);
-        WirelessNodeId* wnId = fwd->getWirelessNodeId(client);
-        encap.setWirelessNodeId(wnId);
+        WirelessNodeId wnId;
+        if (!fwd->getWirelessNodeId(client, &wnId))
+        {
+            return 0;   // another client took its node
+        }
+        encap.setWirelessNodeId(&wnId);
         task->log(client, packet);
         WRITELOG(FORMAT_Y_W_G, currentDateTime(), encap.getName(), RIGHTARROW, fwd->getId(), encap.print(pbuf));
         rc = encap.unicast(_gateway->getSensorNetwork(), fwd->getSensorNetAddr());
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index f2c686c..f787076 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -209,7 +209,10 @@ void Client::setKeepAlive(MQTTSNPacket* packet)
 void Client::setForwarder(Forwarder* forwarder)
 {
     _forwarder = forwarder;
-    _clientType = Ctype_Forwarded;
+    if (_clientType == Ctype_Normal || _clientType == Ctype_Forwarded)
+    {
+        _clientType = forwarder ? Ctype_Forwarded : Ctype_Normal;
+    }
 }
 
 Forwarder* Client::getForwarder(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f4c019b..cd46b39 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -111,9 +111,14 @@ void ClientRecvTask::run()
                 /* get the packet from the encapsulation message */
                 MQTTSNGWEncapsulatedPacket encap;
                 encap.desirialize(packet->getPacketData(), packet->getPacketLength());
+                delete packet;
+                packet = encap.getMQTTSNPacket();
+                if (packet == nullptr)
+                {
+                    continue;
+                }
                 nodeId.setId(encap.getWirelessNodeId());
                 client = fwd->getClient(&nodeId);
-                packet = encap.getMQTTSNPacket();
             }
         }
         else
diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
index 24c2afe..3a9870c 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
@@ -94,7 +94,7 @@ MQTTSNGWEncapsulatedPacket::~MQTTSNGWEncapsulatedPacket()
 
 int MQTTSNGWEncapsulatedPacket::unicast(SensorNetwork* network, SensorNetAddress* sendTo)
 {
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + 255]; // packet and encapsulation header
     int len = serialize(buf);
     return network->unicast(buf, len, sendTo);
 }
@@ -122,11 +122,17 @@ int MQTTSNGWEncapsulatedPacket::desirialize(unsigned char* buf, unsigned short l
         _mqttsn = nullptr;
     }
 
+    int packetLen = 0;
+    if (len < 3 || buf[0] < 3 || (packetLen = MQTTSNPacket::getCompleteLength(buf + buf[0], len - buf[0])) == 0)
+    {
+        return 0;   // there is no complete packet in it
+    }
+
     _ctrl = buf[2];
     _id.setId(buf + 3, buf[0] - 3);
 
     _mqttsn = new MQTTSNPacket;
-    _mqttsn->desirialize(buf + buf[0], len - buf[0]);
+    _mqttsn->desirialize(buf + buf[0], packetLen);
     return buf[0];
 }
 
@@ -160,7 +166,7 @@ char* MQTTSNGWEncapsulatedPacket::print(char* pbuf)
     char* ptr = pbuf;
     char** pptr = &pbuf;
 
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + 255];
     int len = serialize(buf);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
 
diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
index a157747..28926a6 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
@@ -129,24 +129,15 @@ const char* Forwarder::getId(void)
 
 void Forwarder::addClient(Client* client, WirelessNodeId* id)
 {
-    ForwarderElement* p = _headClient;
-    ForwarderElement* prev = nullptr;
-
-    client->setForwarder(this);
-
-    if (p != nullptr)
+    /* the client may have been at another node or forwarder and another client at this node */
+    if (client->getForwarder() != nullptr)
     {
-        while (p)
-        {
-            if (p->_client == client)
-            {
-                client->setForwarder(this);
-                p->setWirelessNodeId(id);
-                return;
-            }
-            prev = p;
-            p = p->_next;
-        }
+        client->getForwarder()->eraseClient(client);
+    }
+    Client* oldClient = getClient(id);
+    if (oldClient != nullptr)
+    {
+        eraseClient(oldClient);
     }
 
     ForwarderElement* fclient = new ForwarderElement();
@@ -154,14 +145,16 @@ void Forwarder::addClient(Client* client, WirelessNodeId* id)
     fclient->setClient(client);
     fclient->setWirelessNodeId(id);
 
-    if (prev)
-    {
-        prev->_next = fclient;
-    }
-    else
+    _mutex.lock();
+    ForwarderElement** p = &_headClient;
+    while (*p)
     {
-        _headClient = fclient;
+        p = &(*p)->_next;
     }
+    *p = fclient;
+    _mutex.unlock();
+
+    client->setForwarder(this);
 }
 
 Client* Forwarder::getClient(WirelessNodeId* id)
@@ -190,16 +183,17 @@ const char* Forwarder::getName(void)
     return _forwarderName.c_str();
 }
 
-WirelessNodeId* Forwarder::getWirelessNodeId(Client* client)
+bool Forwarder::getWirelessNodeId(Client* client, WirelessNodeId* nodeId)
 {
-    WirelessNodeId* nodeId = nullptr;
+    bool rc = false;
     _mutex.lock();
     ForwarderElement* p = _headClient;
     while (p)
     {
         if (p->_client == client)
         {
-            nodeId = p->_wirelessNodeId;
+            nodeId->setId(p->_wirelessNodeId);
+            rc = true;
             break;
         }
         else
@@ -208,7 +202,7 @@ WirelessNodeId* Forwarder::getWirelessNodeId(Client* client)
         }
     }
     _mutex.unlock();
-    return nodeId;
+    return rc;
 }
 
 void Forwarder::eraseClient(Client* client)
@@ -234,6 +228,7 @@ void Forwarder::eraseClient(Client* client)
         }
         else
         {
+            prev = p;
             p = p->_next;
         }
     }
diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.h b/MQTTSNGateway/src/MQTTSNGWForwarder.h
index 9730030..24e2b74 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.h
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.h
@@ -61,7 +61,7 @@ public:
     const char* getId(void);
     void addClient(Client* client, WirelessNodeId* id);
     Client* getClient(WirelessNodeId* id);
-    WirelessNodeId* getWirelessNodeId(Client* client);
+    bool getWirelessNodeId(Client* client, WirelessNodeId* nodeId);
     void eraseClient(Client* client);
     SensorNetAddress* getSensorNetAddr(void);
     const char* getName(void);
-- 
2.43.0


From e80688cc17bd267519290b0d3cb6ee1274033477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 25/80] fix: CONNECT was attributed to whoever used its address
 before, unlisted senders were connected, long client ids overflowed the log
 buffer

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp     |  2 +-
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 74 ++++++++++++++++----
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.h   |  1 +
 3 files changed, 63 insertions(+), 14 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 6db04ad..836c808 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -335,7 +335,7 @@ Client* ClientList::getClient(MQTTSNString* clientId)
     while (client != nullptr)
     {
         /* the whole ID has to be the same, not only the beginning of it */
-        if (strlen(client->getClientId()) == len && memcmp(client->getClientId(), clID, len) == 0)
+        if (strlen(client->getClientId()) == len && (len == 0 || memcmp(client->getClientId(), clID, len) == 0))
         {
             _mutex.unlock();
             return client;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index cd46b39..f9ac585 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -150,6 +150,12 @@ void ClientRecvTask::run()
             }
         }
 
+        if (client != nullptr && packet->getType() == MQTTSN_CONNECT && !isClientId(client, packet))
+        {
+            /* another client has taken over the address or the node */
+            client = nullptr;
+        }
+
         if (client != nullptr)
         {
             log(client, packet, 0);
@@ -194,24 +200,52 @@ void ClientRecvTask::run()
 
                 client = clientList->getClient(&data.clientID);
 
-                if (fwd != nullptr)
+                if (clientList->isAuthorized() && (fwd == nullptr || client == nullptr))
+                {
+                    /* it is not in the client list, or not at the address of the list */
+                    client = nullptr;
+                }
+                else if (client != nullptr && (client->isAdapter() || client->isQoSm1()))
+                {
+                    client = nullptr;   // the id belongs to the gateway
+                }
+                else if (data.clientID.lenstring.len > 0
+                        && memchr(data.clientID.lenstring.data, 0, data.clientID.lenstring.len) != nullptr)
+                {
+                    client = nullptr;   // invalid id
+                }
+                else if (fwd != nullptr)
                 {
                     if (client == nullptr)
                     {
                         /* create a new client */
                         client = clientList->createClient(0, &data.clientID, clientType);
                     }
-                    /* Add to a forwarded client list of forwarder. */
-                    fwd->addClient(client, &nodeId);
+                    if (client != nullptr)
+                    {
+                        /* Add to a forwarded client list of forwarder. */
+                        fwd->addClient(client, &nodeId);
+                    }
                 }
                 else
                 {
+                    /* the client which was at this address before has left it */
+                    Client* oldClient = clientList->getClient(&senderAddr);
+                    if (oldClient != nullptr && oldClient != client)
+                    {
+                        SensorNetAddress noAddr;
+                        oldClient->setClientAddress(&noAddr);
+                    }
+
                     if (client)
                     {
-                        /* Authentication is not required */
-                        if (_gateway->getGWParams()->clientAuthentication == false)
+                        client->setClientAddress(&senderAddr);
+                        if (client->getForwarder() != nullptr)
                         {
-                            client->setClientAddress(&senderAddr);
+                            /* it is not behind the forwarder any more */
+                            Forwarder* oldFwd = client->getForwarder();
+                            client->setForwarder(nullptr);
+                            oldFwd->eraseClient(client);
                         }
                     }
                     else
@@ -259,6 +293,20 @@ void ClientRecvTask::run()
     }
 }
 
+/* Is the CONNECT packet of this client?  An incorrect one is ignored later. */
+bool ClientRecvTask::isClientId(Client* client, MQTTSNPacket* packet)
+{
+    MQTTSNPacket_connectData data;
+    memset(&data, 0, sizeof(MQTTSNPacket_connectData));
+    if (!packet->getCONNECT(&data))
+    {
+        return true;
+    }
+    size_t len = data.clientID.lenstring.len;
+    return strlen(client->getClientId()) == len
+            && (len == 0 || memcmp(client->getClientId(), data.clientID.lenstring.data, len) == 0);
+}
+
 void ClientRecvTask::log(Client* client, MQTTSNPacket* packet, MQTTSNString* id)
 {
     const char* clientId;
@@ -266,17 +314,17 @@ void ClientRecvTask::log(Client* client, MQTTSNPacket* packet, MQTTSNString* id)
 
     if (id)
     {
-        if (id->cstring)
+        int len = MQTTSNstrlen(*id);
+        if (len > MAX_CLIENTID_LENGTH)
         {
-            strncpy(cstr, id->cstring, strlen(id->cstring));
-            clientId = cstr;
+            len = MAX_CLIENTID_LENGTH;
         }
-        else
+        memset((void*) cstr, 0, sizeof(cstr));
+        if (len > 0)
         {
-            memset((void*) cstr, 0, id->lenstring.len + 1);
-            strncpy(cstr, id->lenstring.data, id->lenstring.len);
-            clientId = cstr;
+            memcpy(cstr, id->cstring ? id->cstring : id->lenstring.data, len);
         }
+        clientId = cstr;
     }
     else if (client)
     {
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h
index 9428d3a..2040ff3 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h
@@ -37,6 +37,7 @@ public:
     void run(void);
 
 private:
+    bool isClientId(Client* client, MQTTSNPacket* packet);
     void log(Client*, MQTTSNPacket*, MQTTSNString* id);
     void log(const char* clientId, MQTTSNPacket* packet);
 
-- 
2.43.0


From 62613081b5859a71316e94f6f84b7ad3ceca2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 26/80] fix: QoS -1 messages were lost while the proxy was not
 connected and didn't know the predefined topics of their sender

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f9ac585..2da1a5d 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -131,7 +131,7 @@ void ClientRecvTask::run()
 
                 if (clientName != nullptr)
                 {
-                    client = qosm1Proxy->getClient();
+                    client = clientList->getClient(&senderAddr);    // its packet is sent by the proxy
 
                     if (!packet->isQoSMinusPUBLISH())
                     {
@@ -160,7 +160,7 @@ void ClientRecvTask::run()
         {
             log(client, packet, 0);
 
-            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT)
+            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !client->isQoSm1())
             {
                 WRITELOG("%s MQTTSNGWClientRecvTask %s is not connecting.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
-- 
2.43.0


From 80489424047239528ed767c99db250c1dfbefb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 27/80] fix: CONNECT with a will never completed, will messages
 were cut at a NUL

---
 MQTTSNGateway/src/MQTTGWPacket.cpp                    |  6 ++++--
 MQTTSNGateway/src/MQTTGWPacket.h                      |  3 ++-
 .../src/MQTTSNAggregateConnectionHandler.cpp          |  4 ++++
 MQTTSNGateway/src/MQTTSNGWClient.cpp                  | 11 +++++++++++
 MQTTSNGateway/src/MQTTSNGWClient.h                    |  3 +++
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp          |  4 +++-
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp       |  7 +++++++
 7 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 01a85f5..b8d0858 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -381,7 +381,7 @@ int MQTTGWPacket::setCONNECT(Connect* connect, unsigned char* username, unsigned
     _remainingLength = ((connect->version == 3) ? 12 : 10) + (int) strlen(connect->clientID) + 2;
     if (connect->flags.bits.will)
     {
-        _remainingLength += (int) strlen(connect->willTopic) + 2 + (int) strlen(connect->willMsg) + 2;
+        _remainingLength += (int) strlen(connect->willTopic) + 2 + connect->willMsgLen + 2;
     }
     if (connect->flags.bits.username)
     {
@@ -416,7 +416,9 @@ int MQTTGWPacket::setCONNECT(Connect* connect, unsigned char* username, unsigned
     if (connect->flags.bits.will)
     {
         writeUTF(&ptr, connect->willTopic);
-        writeUTF(&ptr, connect->willMsg);
+        writeInt(&ptr, connect->willMsgLen);
+        memcpy(ptr, connect->willMsg, connect->willMsgLen);
+        ptr += connect->willMsgLen;
     }
 
     if (connect->flags.bits.username)
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 784afc4..f7a57cd 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -125,9 +125,10 @@ typedef struct
 
     int keepAliveTimer; /**< keepalive timeout value in seconds */
     unsigned char version; /**< MQTT version number */
+    int willMsgLen; /**< length of the will payload */
 } Connect;
 
-#define MQTTPacket_Connect_Initializer {{0}, {0}, nullptr, nullptr, nullptr, nullptr, 0, 0}
+#define MQTTPacket_Connect_Initializer {{0}, {0}, nullptr, nullptr, nullptr, nullptr, 0, 0, 0}
 #define MQTTPacket_willOptions_initializer { {'M', 'Q', 'T', 'W'}, 0, {NULL, {0, NULL}}, {NULL, {0, NULL}}, 0, 0 }
 #define MQTTPacket_connectData_initializer { {'M', 'Q', 'T', 'C'}, 0, 4, {NULL, {0, NULL}}, 60, 1, 0, \
         MQTTPacket_willOptions_initializer, {NULL, {0, NULL}}, {NULL, {0, NULL}} }
diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index e61d807..f998e48 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -96,6 +96,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
 
     if (data.willFlag)
     {
+        client->setWaitWillTopicFlg(true);
         /* create & send WILLTOPICREQ message to the client */
         MQTTSNPacket* reqTopic = new MQTTSNPacket();
         reqTopic->setWILLTOPICREQ();
@@ -140,6 +141,9 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
             return;
         }
         client->setWillMsg(willmsg);
+        client->setWaitWillTopicFlg(false);
+        client->setWaitWillMsgFlg(false);
+        client->connackSended(MQTTSN_RC_ACCEPTED);
 
         /* Send CONNACK to the client */
         MQTTSNPacket* packet = new MQTTSNPacket();
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index f787076..d267389 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -325,6 +325,7 @@ void Client::connackSended(int rc)
 void Client::disconnected(void)
 {
     _status = Cstat_Disconnected;
+    _waitWillTopicFlg = false;
     _waitWillMsgFlg = false;
 }
 
@@ -410,6 +411,16 @@ void Client::setWaitWillMsgFlg(bool flg)
     _waitWillMsgFlg = flg;
 }
 
+void Client::setWaitWillTopicFlg(bool flg)
+{
+    _waitWillTopicFlg = flg;
+}
+
+bool Client::isWaitWillTopic(void)
+{
+    return _waitWillTopicFlg;
+}
+
 bool Client::isWaitWillMsg(void)
 {
     return _waitWillMsgFlg;
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index 1b130cc..04f5e67 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -247,6 +247,7 @@ public:
     char* getWillMsg(void);
     const char* getStatus(void);
     void setWaitWillMsgFlg(bool);
+    void setWaitWillTopicFlg(bool);
     void setSessionStatus(bool);  // true: clean session
     bool erasable(void);
 
@@ -258,6 +259,7 @@ public:
     bool isSecureNetwork(void);
     bool isSensorNetStable(void);
     bool isWaitWillMsg(void);
+    bool isWaitWillTopic(void);
 	bool isCleanSession(void);
 
     void holdPingRequest(void);
@@ -290,6 +292,7 @@ private:
 
     ClientStatus _status;
     bool _waitWillMsgFlg;
+    bool _waitWillTopicFlg { false };
 
     uint16_t _packetId;
     uint8_t _snMsgId;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 2da1a5d..fc493c1 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -160,7 +160,9 @@ void ClientRecvTask::run()
         {
             log(client, packet, 0);
 
-            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !client->isQoSm1())
+            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !client->isQoSm1()
+                    && !(packet->getType() == MQTTSN_WILLTOPIC && client->isWaitWillTopic())
+                    && !(packet->getType() == MQTTSN_WILLMSG && client->isWaitWillMsg()))
             {
                 WRITELOG("%s MQTTSNGWClientRecvTask %s is not connecting.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index c2713eb..d703741 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -135,6 +135,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
 
     if (data.willFlag)
     {
+        client->setWaitWillTopicFlg(true);
         /* create & send WILLTOPICREQ message to the client */
         MQTTSNPacket* reqTopic = new MQTTSNPacket();
         reqTopic->setWILLTOPICREQ();
@@ -166,6 +167,10 @@ void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* pack
     uint8_t willRetain;
     MQTTSNString willTopic = MQTTSNString_initializer;
 
+    if (!client->isWaitWillTopic())
+    {
+        return;     // it was not requested
+    }
     if (packet->getWILLTOPIC(&willQos, &willRetain, &willTopic) == 0)
     {
         return;
@@ -213,12 +218,14 @@ void MQTTSNConnectionHandler::handleWillmsg(Client* client, MQTTSNPacket* packet
         /* create CONNECT message */
         MQTTGWPacket* mqttPacket = new MQTTGWPacket();
         connectData->willMsg = client->getWillMsg();
+        connectData->willMsgLen = MQTTSNstrlen(willmsg);
         mqttPacket->setCONNECT(connectData, (unsigned char*) _gateway->getGWParams()->loginId,
                 (unsigned char*) _gateway->getGWParams()->password);
 
         /* Send CONNECT to the broker */
         Event* evt = new Event();
         evt->setBrokerSendEvent(client, mqttPacket);
+        client->setWaitWillTopicFlg(false);
         client->setWaitWillMsgFlg(false);
         _gateway->getBrokerSendQue()->post(evt);
     }
-- 
2.43.0


From 631124756ca126e652963aed8663ec68c5f91966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 28/80] fix: packets were sent on a new connection without
 CONNECT, failed connections left the client waiting for CONNACK

---
 MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp | 55 ++++++++++++++------
 MQTTSNGateway/src/MQTTSNGWBrokerSendTask.h   |  1 +
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
index e061d0c..2d0eacd 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
@@ -88,6 +88,14 @@ void BrokerSendTask::run()
                 client->getNetwork()->close();
             }
 
+            if (!client->getNetwork()->isValid() && packet->getType() != CONNECT)
+            {
+                /* the connection was lost. Only CONNECT can be the first packet of a new one */
+                disconnect(client, packet);
+                delete ev;
+                continue;
+            }
+
             if (!client->getNetwork()->isValid())
             {
                 /* connect to the broker and send a packet */
@@ -108,21 +116,22 @@ void BrokerSendTask::run()
                     /* disconnect the broker and the client */
                     WRITELOG("%s BrokerSendTask: %s can't connect to the broker. errno=%d %s %s\n",
                     ERRMSG_HEADER, client->getClientId(), errno, strerror(errno), ERRMSG_FOOTER);
-                    delete ev;
                     client->getNetwork()->close();
+                    disconnect(client, packet);
+                    delete ev;
                     continue;
                 }
             }
 
             /* send a packet */
             _light->blueLight(true);
+            if (packet->getType() == CONNECT)
+            {
+                client->connectSended();    // CONNACK may be received as soon as CONNECT is sent
+            }
             if ((rc = packet->send(client->getNetwork())) > 0)
             {
-                if (packet->getType() == CONNECT)
-                {
-                    client->connectSended();
-                }
-                else if (packet->getType() == DISCONNECT)
+                if (packet->getType() == DISCONNECT)
                 {
                     client->getNetwork()->close();
                     client->disconnected();
@@ -133,17 +142,10 @@ void BrokerSendTask::run()
             {
                 WRITELOG("%s BrokerSendTask: %s can't send a packet to the broker. errno=%d %s %s\n",
                 ERRMSG_HEADER, client->getClientId(), rc == -1 ? errno : 0, strerror(errno), ERRMSG_FOOTER);
-                if ( errno != EBADF)
-                {
-                    client->getNetwork()->close();
-                }
+                client->getNetwork()->close();
 
                 /* Disconnect the client */
-                packet = new MQTTGWPacket();
-                packet->setHeader(DISCONNECT);
-                Event* ev1 = new Event();
-                ev1->setBrokerRecvEvent(client, packet);
-                _gateway->getPacketEventQue()->post(ev1);
+                disconnect(client, packet);
             }
 
             _light->blueLight(false);
@@ -152,6 +154,29 @@ void BrokerSendTask::run()
     }
 }
 
+/**
+ *  the packet can't be sent because the client has no connection with the broker.
+ */
+void BrokerSendTask::disconnect(Client* client, MQTTGWPacket* packet)
+{
+    if (packet->getType() != CONNECT)
+    {
+        if (client->isActive() || client->isSleep() || client->isAwake())
+        {
+            client->disconnected();
+        }
+    }
+    else if (!client->isAdapter())
+    {
+        client->disconnected();
+        MQTTSNPacket* connack = new MQTTSNPacket();
+        connack->setCONNACK(MQTTSN_RC_REJECTED_CONGESTED);
+        Event* ev = new Event();
+        ev->setClientSendEvent(client, connack);
+        _gateway->getClientSendQue()->post(ev);
+    }
+}
+
 /**
  *  write message content into stdout or Ringbuffer
  */
diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.h b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.h
index 7361692..a0818c9 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.h
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.h
@@ -37,6 +37,7 @@ public:
     void initialize(int argc, char** argv);
     void run();
 private:
+    void disconnect(Client* client, MQTTGWPacket* packet);
     void log(Client*, MQTTGWPacket*);
     Gateway* _gateway;
     GatewayParams* _gwparams;
-- 
2.43.0


From 2b5495d0cb4f498e10eab9b36a207193e5dec235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 29/80] fix: a failed name resolution freed its result twice, a
 failed connect leaked the socket

---
 MQTTSNGateway/src/linux/Network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index c4c5a52..b10b8c6 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -170,6 +170,7 @@ bool TCPStack::connect(const char* host, const char* service)
 	if (_addrinfo)
 	{
 		freeaddrinfo(_addrinfo);
+		_addrinfo = 0;
 	}
 
 	int err = getaddrinfo(host, service, &hints, &_addrinfo);
@@ -190,6 +191,7 @@ bool TCPStack::connect(const char* host, const char* service)
 
 	if (setsockopt(sockfd, SOL_SOCKET, SO_REUSEADDR, (const char*) &on, sizeof(on)) == -1)
 	{
+		::close(sockfd);
 		return false;
 	}
 
-- 
2.43.0


From 9deec9c4a7a1449dc3a3f52dc11d8e4b21020cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 30/80] fix: aggregated subscriptions: wrong receivers when
 filters overlap, crashes on removal, removed for all clients by one

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    |  8 +--
 .../src/MQTTSNAggregateConnectionHandler.cpp  | 10 +--
 .../src/MQTTSNGWAggregateTopicTable.cpp       | 68 +++++++++++++++++--
 .../src/MQTTSNGWAggregateTopicTable.h         |  4 ++
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      | 12 +++-
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  1 +
 .../src/MQTTSNGWSubscribeHandler.cpp          | 14 ++++
 7 files changed, 93 insertions(+), 24 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 06450c9..639a224 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -301,12 +301,8 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
-    // ToDo: need to refactor
-    ClientTopicElement* elm = _gateway->getAdapterManager()->getAggregater()->getClientElement(&topic);
-
-    while (elm != nullptr)
+    for (Client* devClient : _gateway->getAdapterManager()->getAggregater()->getClients(&topic))
     {
-        Client* devClient = elm->getClient();
         MQTTGWPacket* msg = new MQTTGWPacket();
         *msg = *packet;
 
@@ -321,8 +317,6 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
         Event* ev = new Event();
         ev->setBrokerRecvEvent(devClient, msg);
         _gateway->getPacketEventQue()->post(ev);
-
-        elm = elm->getNextClientElement();
     }
 }
 
diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index f998e48..8b33044 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -80,17 +80,9 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         /* renew the TopicList */
         if (topics)
         {
-            Topic* tp = topics->getFirstTopic();
-            while (tp != nullptr)
-            {
-                if (tp->getType() == MQTTSN_TOPIC_TYPE_NORMAL)
-                {
-                    _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(tp, client);
-                }
-                tp = topics->getNextTopic(tp);
-            }
             topics->eraseNormal();
         }
+        _gateway->getAdapterManager()->getAggregater()->removeAggregateAllTopic(client);
         client->setSessionStatus(true);
     }
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index e5703d6..c707118 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -15,6 +15,7 @@
  **************************************************************************************/
 #include "MQTTSNGWAggregateTopicTable.h"
 #include "MQTTSNGWClient.h"
+#include <algorithm>
 
 /*=====================================
  Class ClientTopicElement
@@ -66,13 +67,14 @@ AggregateTopicElement::~AggregateTopicElement(void)
         ClientTopicElement* p = _tail;
         while (p)
         {
-            ClientTopicElement* pPrev = p;
+            ClientTopicElement* pPrev = p->_prev;
             delete p;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
     _mutex.unlock();
+    delete _topic;
 }
 
 ClientTopicElement* AggregateTopicElement::add(Client* client)
@@ -156,6 +158,7 @@ void AggregateTopicElement::eraseClient(Client* client)
         else if (p->_next != nullptr)  // middle
         {
             p->_prev->_next = p->_next;
+            p->_next->_prev = p->_prev;
         }
         else    // tail
         {
@@ -185,7 +188,7 @@ AggregateTopicElement* AggregateTopicTable::add(Topic* topic, Client* client)
 {
     AggregateTopicElement* elm = nullptr;
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
     if (elm != nullptr)
     {
         if (elm->find(client) == nullptr)
@@ -218,18 +221,68 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     AggregateTopicElement* elm = nullptr;
 
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
 
     if (elm != nullptr)
     {
         elm->eraseClient(client);
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
     }
-    if (elm->_head == nullptr)
+    _mutex.unlock();
+    return;
+}
+
+void AggregateTopicTable::erase(Client* client)
+{
+    _mutex.lock();
+    AggregateTopicElement* elm = _head;
+    while (elm != nullptr)
     {
-        erase(elm);
+        AggregateTopicElement* next = elm->_next;
+        elm->eraseClient(client);
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
+        elm = next;
     }
     _mutex.unlock();
-    return;
+}
+
+/* find the topic filter itself */
+AggregateTopicElement* AggregateTopicTable::find(Topic* topic)
+{
+    AggregateTopicElement* elm = _head;
+    while (elm != nullptr && *elm->_topic->_topicName != *topic->_topicName)
+    {
+        elm = elm->_next;
+    }
+    return elm;
+}
+
+/* get the clients which have any topic filter matching the topic name */
+std::vector<Client*> AggregateTopicTable::getClients(Topic* topic)
+{
+    std::vector<Client*> clients;
+    _mutex.lock();
+    for (AggregateTopicElement* elm = _head; elm != nullptr; elm = elm->_next)
+    {
+        if (elm->_topic->isMatch(topic->_topicName))
+        {
+            for (ClientTopicElement* p = elm->_head; p != nullptr; p = p->_next)
+            {
+                if (std::find(clients.begin(), clients.end(), p->_client) == clients.end())
+                {
+                    clients.push_back(p->_client);
+                }
+            }
+        }
+    }
+    _mutex.unlock();
+    return clients;
 }
 
 void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
@@ -251,6 +304,7 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
         else if (elmTopic->_next != nullptr)  // middle
         {
             elmTopic->_prev->_next = elmTopic->_next;
+            elmTopic->_next->_prev = elmTopic->_prev;
         }
         else    // tail
         {
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 6293c0d..3bd10b1 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -20,6 +20,7 @@
 #include "MQTTSNGWDefines.h"
 #include "MQTTSNGWProcess.h"
 #include <stdint.h>
+#include <vector>
 namespace MQTTSNGW
 {
 
@@ -41,7 +42,10 @@ public:
     AggregateTopicElement* add(Topic* topic, Client* client);
     AggregateTopicElement* getAggregateTopicElement(Topic* topic);
     ClientTopicElement* getClientElement(Topic* topic);
+    AggregateTopicElement* find(Topic* topic);
+    std::vector<Client*> getClients(Topic* topic);
     void erase(Topic* topic, Client* client);
+    void erase(Client* client);
     void clear(void);
 
     void print(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 17da79f..0a6bf70 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -94,9 +94,19 @@ void Aggregater::removeAggregateTopic(Topic* topic, Client* client)
     _topicTable.erase(topic, client);
 }
 
+void Aggregater::removeAggregateAllTopic(Client* client)
+{
+    _topicTable.erase(client);
+}
+
 AggregateTopicElement* Aggregater::findTopic(Topic* topic)
 {
-    return _topicTable.getAggregateTopicElement(topic);
+    return _topicTable.find(topic);
+}
+
+std::vector<Client*> Aggregater::getClients(Topic* topic)
+{
+    return _topicTable.getClients(topic);
 }
 
 ClientTopicElement* Aggregater::getClientElement(Topic* topic)
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 490b71f..e8684e8 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -53,6 +53,7 @@ public:
     ClientTopicElement* getNextClientElement(ClientTopicElement* clientElement);
     Client* getClient(ClientTopicElement* clientElement);
 
+    std::vector<Client*> getClients(Topic* topic);
     AggregateTopicElement* findTopic(Topic* topic);
     AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 6ce4de6..fd1e866 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -263,6 +263,20 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
         Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
         _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(&topic, client);
 
+        if (_gateway->getAdapterManager()->getAggregater()->findTopic(&topic) != nullptr)
+        {
+            /* other clients still need the subscription of the aggregater */
+            uint16_t clientMsgId = 0;
+            _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
+            MQTTSNPacket* unsuback = new MQTTSNPacket();
+            unsuback->setUNSUBACK(clientMsgId);
+            Event* evu = new Event();
+            evu->setClientSendEvent(client, unsuback);
+            _gateway->getClientSendQue()->post(evu);
+            delete unsubscribe;
+            return;
+        }
+
         unsubscribe->setMsgId(msgId);
         Event* ev = new Event();
         ev->setBrokerSendEvent(client, unsubscribe);
-- 
2.43.0


From 6339bac3004a77fee2a9f700501c96f7a2b4c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 31/80] fix: aggregated QoS 1 and 2 exchanges never completed
 or used message id 0, message id table leaked

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 13 ++++++--
 MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp  |  4 +--
 MQTTSNGateway/src/MQTTSNGWAdapterManager.h    |  2 +-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      | 15 +++++++--
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  3 +-
 .../src/MQTTSNGWConnectionHandler.cpp         |  4 +++
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp  | 29 +++++++++++++----
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h    |  3 +-
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp  | 31 +++++++++++++++----
 .../src/MQTTSNGWSubscribeHandler.cpp          | 20 +++---------
 10 files changed, 87 insertions(+), 37 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 639a224..1c6b35d 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -185,6 +185,11 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
 
 void MQTTGWPublishHandler::replyDiscarded(Client* client, Publish* pub)
 {
+    if (client->isAggregated())
+    {
+        return; // it is acknowledged by handleAggregatePublish
+    }
+
     if (pub->header.bits.qos == 1)
     {
         replyACK(client, pub, PUBACK);
@@ -278,7 +283,8 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 {
     uint16_t msgId = packet->getMsgId();
     uint16_t clientMsgId = 0;
-    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
+    /* PUBREL and PUBCOMP of the client follow PUBREC */
+    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId, type != PUBREC);
     if (newClient != nullptr)
     {
         packet->setMsgId((int) clientMsgId);
@@ -289,7 +295,7 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 void MQTTGWPublishHandler::handleAggregatePubrel(Client* client, MQTTGWPacket* packet)
 {
     Publish pub;
-    packet->getPUBLISH(&pub);
+    pub.msgId = packet->getMsgId();
     replyACK(client, &pub, PUBCOMP);
 }
 
@@ -318,5 +324,8 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
         ev->setBrokerRecvEvent(devClient, msg);
         _gateway->getPacketEventQue()->post(ev);
     }
+
+    /* acknowledge it once for all clients */
+    replyDiscarded(client, &pub);
 }
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
index 720a92f..878b808 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
@@ -177,9 +177,9 @@ void AdapterManager::checkConnection(void)
     }
 }
 
-Client* AdapterManager::convertClient(uint16_t msgId, uint16_t* clientMsgId)
+Client* AdapterManager::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool completed)
 {
-    return _aggregater->convertClient(msgId, clientMsgId);
+    return _aggregater->convertClient(msgId, clientMsgId, completed);
 }
 
 bool AdapterManager::isAggregaterActive(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.h b/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
index 42674be..68bae3e 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
@@ -48,7 +48,7 @@ public:
 
     bool isAggregatedClient(Client* client);
     Client* getClient(Client* client);
-    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool completed = true);
     int unicastToClient(Client* client, MQTTSNPacket* packet,
             ClientSendTask* task);
     bool isAggregaterActive(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 0a6bf70..a110737 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -59,15 +59,26 @@ uint16_t Aggregater::msgId(void)
     return Adapter::getSecureClient()->getNextPacketId();
 }
 
-Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId)
+Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool completed)
 {
-    return _msgIdTable.getClientMsgId(msgId, clientMsgId);
+    return _msgIdTable.getClientMsgId(msgId, clientMsgId, completed);
+}
+
+void Aggregater::clearMessageIdTable(void)
+{
+    _msgIdTable.clear();
 }
 
 uint16_t Aggregater::addMessageIdTable(Client* client, uint16_t msgId)
 {
     /* set Non secure client`s nextMsgId. otherwise Id is duplicated.*/
 
+    uint16_t usedId = getMsgId(client, msgId);
+    if (usedId > 0)
+    {
+        return usedId;  // sent again, or reused before it was completed
+    }
+
     MessageIdElement* elm = _msgIdTable.add(this, client, msgId);
     if (elm == nullptr)
     {
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index e8684e8..c4414dd 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -45,7 +45,8 @@ public:
 
     const char* getClientId(SensorNetAddress* addr);
     Client* getClient(SensorNetAddress* addr);
-    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool completed = true);
+    void clearMessageIdTable(void);
     uint16_t addMessageIdTable(Client* client, uint16_t msgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index d703741..5d398ea 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -92,6 +92,10 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
     {
         client->disconnected();
     }
+    else if (client->isAggregater())
+    {
+        _gateway->getAdapterManager()->getAggregater()->clearMessageIdTable();
+    }
 
     Topics* topics = client->getTopics();
 
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 8db2cb1..a5ac966 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -35,10 +35,10 @@ MessageIdTable::~MessageIdTable()
         MessageIdElement* p = _tail;
         while (p)
         {
-            MessageIdElement* pPrev = p;
+            MessageIdElement* pPrev = p->_prev;
             delete p;
             _cnt--;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
@@ -47,7 +47,7 @@ MessageIdTable::~MessageIdTable()
 
 MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, uint16_t clientMsgId)
 {
-    if (_cnt > _maxSize)
+    if (_cnt >= _maxSize)
     {
         return nullptr;
     }
@@ -70,7 +70,11 @@ MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, ui
         MessageIdElement* p = find(client, clientMsgId);
         if (p == nullptr)
         {
-            elm->_msgId = aggregater->msgId();
+            do
+            {
+                elm->_msgId = aggregater->msgId();
+            }
+            while (find(elm->_msgId) != nullptr);   // it is still in use
             p = _tail;
             _tail = elm;
             elm->_prev = p;
@@ -115,7 +119,7 @@ MessageIdElement* MessageIdTable::find(Client* client, uint16_t clientMsgId)
     return p;
 }
 
-Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
+Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool erase)
 {
     Client* clt = nullptr;
     *clientMsgId = 0;
@@ -125,7 +129,10 @@ Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
     {
         clt = p->_client;
         *clientMsgId = p->_clientMsgId;
-        clear(p);
+        if (erase)
+        {
+            clear(p);
+        }
     }
     _mutex.unlock();
     return clt;
@@ -178,6 +185,16 @@ void MessageIdTable::clear(MessageIdElement* elm)
     }
 }
 
+void MessageIdTable::clear(void)
+{
+    _mutex.lock();
+    while (_head != nullptr)
+    {
+        clear(_head);
+    }
+    _mutex.unlock();
+}
+
 uint16_t MessageIdTable::getMsgId(Client* client, uint16_t clientMsgId)
 {
     uint16_t msgId = 0;
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index 2f0b5e6..b76a6e8 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -39,10 +39,11 @@ public:
 
     MessageIdElement* add(Aggregater* aggregater, Client* client,
             uint16_t clientMsgId);
-    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
+    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool erase = true);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
+    void clear(void);
 private:
     MessageIdElement* find(uint16_t msgId);
     MessageIdElement* find(Client* client, uint16_t clientMsgId);
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 1b32bb8..71444b0 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -311,13 +311,14 @@ void MQTTSNPublishHandler::handleAggregatePublish(Client* client, MQTTSNPacket*
     {
         if (publish->getMsgId() > 0)
         {
-            if (packet->isDuplicate())
-            {
-                msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-            }
-            else
+            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
+
+            if (msgId == 0)
             {
-                msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
+                WRITELOG("%s MQTTSNPublishHandler can't create MessageIdTableElement  %s%s\n",
+                ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+                delete publish;
+                return;
             }
             publish->setMsgId(msgId);
         }
@@ -343,4 +344,22 @@ void MQTTSNPublishHandler::handleAggregateAck(Client* client, MQTTSNPacket* pack
         ev->setClientSendEvent(client, ackPacket);
         _gateway->getClientSendQue()->post(ev);
     }
+    else if (type == MQTTSN_PUBREL)
+    {
+        uint16_t clientMsgId;
+
+        if (packet->getACK(&clientMsgId) == 0)
+        {
+            return;
+        }
+        uint16_t msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, clientMsgId);
+        if (msgId > 0)
+        {
+            MQTTGWPacket* ackPacket = new MQTTGWPacket();
+            ackPacket->setAck(PUBREL, msgId);
+            Event* ev = new Event();
+            ev->setBrokerSendEvent(client, ackPacket);
+            _gateway->getBrokerSendQue()->post(ev);
+        }
+    }
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index fd1e866..b80f5d2 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -207,19 +207,13 @@ void MQTTSNSubscribeHandler::handleAggregateSubscribe(Client* client, MQTTSNPack
     if (subscribe != nullptr)
     {
         int msgId = 0;
-        if (packet->isDuplicate())
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-        }
-        else
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
-        }
+        msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
 
         if (msgId == 0)
         {
             WRITELOG("%s MQTTSNSubscribeHandler can't create MessageIdTableElement  %s%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            delete subscribe;
             return;
         }
 
@@ -242,19 +236,13 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
     if (unsubscribe != nullptr)
     {
         int msgId = 0;
-        if (packet->isDuplicate())
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-        }
-        else
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
-        }
+        msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
 
         if (msgId == 0)
         {
             WRITELOG("%s MQTTSNUnsubscribeHandler can't create MessageIdTableElement  %s%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            delete unsubscribe;
             return;
         }
 
-- 
2.43.0


From e5262689988c32b2f01e003647dab6fbafd1aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 32/80] fix: SUBACK carried a wrong topic id for short names
 beyond ASCII

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index b80f5d2..b7c5fa2 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -105,8 +105,8 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
         topicstr[0] = topicFilter.data.short_name[0];
         topicstr[1] = topicFilter.data.short_name[1];
         topicstr[2] = 0;
-        topicId = topicFilter.data.short_name[0] << 8;
-        topicId |= topicFilter.data.short_name[1];
+        topicId = (uint8_t) topicFilter.data.short_name[0] << 8;
+        topicId |= (uint8_t) topicFilter.data.short_name[1];
         subscribe = new MQTTGWPacket();
         subscribe->setSUBSCRIBE(topicstr, (uint8_t) qos, (uint16_t) msgId);
     }
-- 
2.43.0


From 4ed7e485435f72eca18261fa03ff7d9ea1c8a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 33/80] fix: reading a parameter ran past lines without '=',
 lost the last character of the file, took the rest of a long line for another
 one

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index 9473a36..b65275c 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -180,13 +180,20 @@ int Process::getParam(const char* parameter, char* value)
             fclose(fp);
             return -3;
         }
+        if (strchr(str, '\n') == NULL)
+        {
+            /* the record is too long. skip the rest of the line */
+            int c;
+            while ((c = fgetc(fp)) != EOF && c != '\n')
+                ;
+        }
         if (str[0] == '#' || str[0] == '\n')
         {
             continue;
         }
 
         len = strlen(str);
-        for (pos = 0; i < len; pos++)
+        for (pos = 0; pos < len; pos++)
         {
             if (str[pos] == '=')
             {
@@ -194,13 +201,11 @@ int Process::getParam(const char* parameter, char* value)
             }
         }
 
-        if (pos == paramlen)
+        if (pos == paramlen && str[pos] == '=')
         {
             if (strncmp(str, parameter, paramlen) == 0)
             {
                 strcpy(param, str + pos + 1);
-                param[len - pos - 2] = '\0';
-
 
                 for (i = strlen(param) - 1; i >= 0 && isspace(param[i]); i--)
                     ;
-- 
2.43.0


From 440b319313fedb22356d5fe5eff25729611f2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 34/80] fix: event queues were read without the lock and kept
 stale wake-ups

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index 426ff48..e1c8247 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -464,10 +464,7 @@ Event* EventQue::wait(void)
 
     while (ev == nullptr)
     {
-        if (_que.size() == 0)
-        {
-            _sem.wait();
-        }
+        _sem.wait();
         _mutex.lock();
         ev = _que.front();
         _que.pop();
@@ -479,10 +476,7 @@ Event* EventQue::wait(void)
 Event* EventQue::timedwait(uint16_t millsec)
 {
     Event* ev;
-    if (_que.size() == 0)
-    {
-        _sem.timedwait(millsec);
-    }
+    _sem.timedwait(millsec);
     _mutex.lock();
 
     if (_que.size() == 0)
-- 
2.43.0


From eac5bd8978b704f449d4beaf7867924c01c7be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 35/80] fix: ADVERTISE and the adapters' keep-alive stopped
 while the gateway was busy

---
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp | 6 ++++--
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index d0e3f45..772e0fe 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -107,6 +107,7 @@ void PacketHandleTask::run()
     memset(msgId, 0, 6);
 
     _advertiseTimer.start(_gateway->getGWParams()->keepAlive * 1000UL);
+    _checkTimer.start(EVENT_QUE_TIME_OUT);
 
     while (true)
     {
@@ -120,7 +121,7 @@ void PacketHandleTask::run()
             return;
         }
 
-        if (ev->getEventType() == EtTimeout)
+        if (ev->getEventType() == EtTimeout || _checkTimer.isTimeup())
         {
             /*------ Check Keep Alive Timer & send Advertise ------*/
             if (_advertiseTimer.isTimeup())
@@ -131,10 +132,11 @@ void PacketHandleTask::run()
 
             /*------ Check Adapters   Connect or PINGREQ ------*/
             adpMgr->checkConnection();
+            _checkTimer.start(EVENT_QUE_TIME_OUT);
         }
 
         /*------    Handle SEARCHGW Message     ---------*/
-        else if (ev->getEventType() == EtBroadcast)
+        if (ev->getEventType() == EtBroadcast)
         {
             snPacket = ev->getMQTTSNPacket();
             _mqttsnConnection->handleSearchgw(snPacket);
diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
index 930c7ae..8b7395d 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.h
@@ -64,6 +64,7 @@ private:
     Gateway* _gateway
     { nullptr };
     Timer _advertiseTimer;
+    Timer _checkTimer;
     Timer _sendUnixTimer;
     MQTTGWConnectionHandler* _mqttConnection { nullptr };
     MQTTGWPublishHandler* _mqttPublish { nullptr };
-- 
2.43.0


From 8386802cfef3a42dc486fb0b51128b8ca8ea6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 36/80] fix: a message on a new topic for a persistent session
 was read from a wild pointer

handlePublish cleared topicId.data.id, which shares its memory with the
pointer to the topic name, before the name was added to the client's topics.
---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 1c6b35d..2759467 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -114,7 +114,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicId.type = MQTTSN_TOPIC_TYPE_NORMAL;
                 topicId.data.long_.len = pub.topiclen;
                 topicId.data.long_.name = pub.topic;
-                topicId.data.id = 0;
             }
 
             /* add the Topic and get a TopicId */
-- 
2.43.0


From d23c31ac32fe23e6113aaa79745ed11d9253e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 37/80] fix: the broker receive task could block on a
 connection that replaced the readable one

Between select and recv the send task may close a connection and open another
one with the same descriptor. The receive then waited for the broker's answer
on it while nobody read the other clients' connections.
---
 MQTTSNGateway/src/linux/Network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index b10b8c6..43fe862 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -154,7 +154,7 @@ int TCPStack::send(const uint8_t* buf, int length)
 
 int TCPStack::recv(uint8_t* buf, int len)
 {
-	return ::recv(_sockfd, buf, len, 0);
+	return ::recv(_sockfd, buf, len, MSG_DONTWAIT);  // readiness may belong to a connection closed meanwhile
 }
 
 bool TCPStack::connect(const char* host, const char* service)
-- 
2.43.0


From a7c15d5e43fd723a48980923a81206790d9cad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 38/80] fix: a message on a predefined topic does not wait for
 the registration of a normal topic with the same id

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 2759467..6e032b7 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -87,7 +87,8 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         topicId.data.long_.name = pub.topic;
         Topic* tp = client->getTopics()->getTopicByName(&topicId);
 
-        if (tp && !client->getWaitREGACKPacketList()->isWaiting(tp->getTopicId()))
+        if (tp && (tp->getType() == MQTTSN_TOPIC_TYPE_PREDEFINED
+                || !client->getWaitREGACKPacketList()->isWaiting(tp->getTopicId())))
         {
             topicId.type = tp->getType();
             topicId.data.long_.len = pub.topiclen;
-- 
2.43.0


From 3229d9915317f9a6b364fa9c8561a0f7b2d5a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 39/80] fix: do not truncate the length of a broker message's
 payload to 16 bits

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 4 ++--
 MQTTSNGateway/src/MQTTSNGWPacket.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index a331c27..1fcb0b0 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -230,12 +230,12 @@ int MQTTSNPacket::setREGACK(uint16_t topicId, uint16_t msgId, uint8_t returnCode
 }
 
 int MQTTSNPacket::setPUBLISH(uint8_t dup, int qos, uint8_t retained, uint16_t msgId, MQTTSN_topicid topic, uint8_t* payload,
-        uint16_t payloadlen)
+        int payloadlen)
 {
     unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
     int buflen = sizeof(buf);
     int len = MQTTSNSerialize_publish(buf, buflen, (unsigned char) dup, qos, (unsigned char) retained, (unsigned short) msgId,
-            topic, (unsigned char*) payload, (int) payloadlen);
+            topic, (unsigned char*) payload, payloadlen);
     return desirialize(buf, len);
 }
 
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 5fdef74..5a15fef 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -50,7 +50,7 @@ public:
     int setREGISTER(uint16_t topicId, uint16_t msgId, MQTTSNString* TopicName);
     int setREGACK(uint16_t topicId, uint16_t msgId, uint8_t returnCode);
     int setPUBLISH(uint8_t dup, int qos, uint8_t retained, uint16_t msgId,
-            MQTTSN_topicid topic, uint8_t* payload, uint16_t payloadlen);
+            MQTTSN_topicid topic, uint8_t* payload, int payloadlen);
     int setPUBACK(uint16_t topicId, uint16_t msgId, uint8_t returnCode);
     int setPUBREC(uint16_t msgId);
     int setPUBREL(uint16_t msgId);
-- 
2.43.0


From 55925ec84ae81acfcabd758b4f02bb2e6700fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 40/80] fix: proxy never connects again when a late CONNACK
 meets its retried CONNECT

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index ba510a5..39dedfd 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -293,7 +293,7 @@ void Proxy::recv(MQTTSNPacket* packet, Client* client)
     {
         if (packet->isAccepted())
         {
-            _responseTimer.stop();
+            _isWaitingResp = false;    // the response timer keeps running for a CONNECT sent in the meantime
             _retryCnt = 0;
             resetPingTimer();
             sendSuspendedPacket();
-- 
2.43.0


From 5e6a6eb0e2fb1e2bc6c38a3c5180ad0f25d0a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 41/80] fix: endless loop when saved QoS-1 packets are saved
 again while they are sent

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 39dedfd..7e699db 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -322,7 +322,8 @@ void Proxy::savePacket(Client* client, MQTTSNPacket* packet)
 
 void Proxy::sendSuspendedPacket(void)
 {
-    while (_suspendedPacketEventQue->size())
+    /* packets may be saved again while they are being posted */
+    for (int cnt = _suspendedPacketEventQue->size(); cnt > 0; cnt--)
     {
         Event* ev = _suspendedPacketEventQue->wait();
         _gateway->getPacketEventQue()->post(ev);
-- 
2.43.0


From b0d99810f07edae773f41547063d88d72cb7e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 42/80] fix: a topic id in use was given to another name when
 the ids wrapped around

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 1f9e931..ed22244 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -303,7 +303,19 @@ Topic* Topics::add(const char* topicName, uint16_t id)
 
 uint16_t Topics::getNextTopicId()
 {
-    return ++_nextTopicId == 0xffff ? _nextTopicId += 2 : _nextTopicId;
+    Topic* topic;
+
+    do
+    {
+        ++_nextTopicId == 0xffff ? _nextTopicId += 2 : _nextTopicId;
+        topic = _first;
+        while (topic && (topic->_type != MQTTSN_TOPIC_TYPE_NORMAL || topic->_topicId != _nextTopicId))
+        {
+            topic = topic->_next;
+        }
+    }
+    while (topic);    // ids wrap around, it is still in use
+    return _nextTopicId;
 }
 
 Topic* Topics::match(const MQTTSN_topicid* topicid)
-- 
2.43.0


From 7db8f9206d536dd539879b616a7d2b7f18d58c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 43/80] fix: a connection closed right after CONNACK left its
 client active

---
 MQTTSNGateway/src/MQTTGWConnectionHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
index 07d5e21..55d0ac0 100644
--- a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
@@ -74,6 +74,10 @@ void MQTTGWConnectionHandler::handleConnack(Client* client, MQTTGWPacket* packet
     Event* ev1 = new Event();
     ev1->setClientSendEvent(client, snPacket);
     client->connackSended(rc);  // update the client's status
+    if (!client->getNetwork()->isValid())
+    {
+        client->disconnected(); // the connection has been closed after CONNACK was received
+    }
     _gateway->getClientSendQue()->post(ev1);
 }
 
-- 
2.43.0


From 45b6a58b038d9b03bfcd1695e76b5d4727d1cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 44/80] fix: a rejected SUBSCRIBE kept its filter in the
 aggregate topic table

---
 MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp  | 12 ++++++-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      | 18 ++++++++++-
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  3 +-
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp  | 31 +++++++++++++++++--
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h    |  4 +++
 .../src/MQTTSNGWSubscribeHandler.cpp          |  2 +-
 6 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
index 9569442..9a2c64f 100644
--- a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
@@ -76,9 +76,19 @@ void MQTTGWSubscribeHandler::handleAggregateSuback(Client* client, MQTTGWPacket*
 {
     uint16_t msgId = packet->getMsgId();
     uint16_t clientMsgId = 0;
-    Client* newClient = _gateway->getAdapterManager()->getAggregater()->convertClient(msgId, &clientMsgId);
+    Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();
+    Client* newClient = aggregater->convertClient(msgId, &clientMsgId, false);
     if (newClient != nullptr)
     {
+        uint16_t id = 0;
+        uint8_t rc = 0;
+        packet->getSUBACK(&id, &rc);
+        if (rc == 0x80)
+        {
+            aggregater->removeRejectedTopic(msgId, newClient);
+        }
+        aggregater->convertClient(msgId, &clientMsgId);    // the message id is not needed any more
+
         packet->setMsgId((int) clientMsgId);
         handleSuback(newClient, packet);
     }
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index a110737..42d8dc0 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -95,8 +95,13 @@ uint16_t Aggregater::getMsgId(Client* client, uint16_t clientMsgId)
     return _msgIdTable.getMsgId(client, clientMsgId);
 }
 
-AggregateTopicElement* Aggregater::addAggregateTopic(Topic* topic, Client* client)
+AggregateTopicElement* Aggregater::addAggregateTopic(Topic* topic, Client* client, uint16_t msgId)
 {
+    AggregateTopicElement* elm = _topicTable.find(topic);
+    if (elm == nullptr || elm->find(client) == nullptr)
+    {
+        _msgIdTable.setNewTopic(msgId, topic);
+    }
     return _topicTable.add(topic, client);
 }
 
@@ -110,6 +115,17 @@ void Aggregater::removeAggregateAllTopic(Client* client)
     _topicTable.erase(client);
 }
 
+/* the broker rejected SUBSCRIBE of the msgId */
+void Aggregater::removeRejectedTopic(uint16_t msgId, Client* client)
+{
+    Topic* topic = _msgIdTable.takeNewTopic(msgId);
+    if (topic != nullptr)
+    {
+        _topicTable.erase(topic, client);
+        delete topic;
+    }
+}
+
 AggregateTopicElement* Aggregater::findTopic(Topic* topic)
 {
     return _topicTable.find(topic);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index c4414dd..35b03e2 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -56,7 +56,8 @@ public:
 
     std::vector<Client*> getClients(Topic* topic);
     AggregateTopicElement* findTopic(Topic* topic);
-    AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client);
+    AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client, uint16_t msgId);
+    void removeRejectedTopic(uint16_t msgId, Client* client);
 
     void removeAggregateTopic(Topic* topic, Client* client);
     void removeAggregateAllTopic(Client* client);
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index a5ac966..e2df48e 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -16,6 +16,7 @@
 
 #include "MQTTSNGWMessageIdTable.h"
 #include "MQTTSNGWClient.h"
+#include "MQTTSNGWTopic.h"
 
 using namespace MQTTSNGW;
 
@@ -206,11 +207,37 @@ uint16_t MessageIdTable::getMsgId(Client* client, uint16_t clientMsgId)
     return msgId;
 }
 
+void MessageIdTable::setNewTopic(uint16_t msgId, Topic* topic)
+{
+    _mutex.lock();
+    MessageIdElement* p = find(msgId);
+    if (p != nullptr)
+    {
+        delete p->_newTopic;
+        p->_newTopic = topic->duplicate();
+    }
+    _mutex.unlock();
+}
+
+Topic* MessageIdTable::takeNewTopic(uint16_t msgId)
+{
+    Topic* topic = nullptr;
+    _mutex.lock();
+    MessageIdElement* p = find(msgId);
+    if (p != nullptr)
+    {
+        topic = p->_newTopic;
+        p->_newTopic = nullptr;
+    }
+    _mutex.unlock();
+    return topic;
+}
+
 /*===============================
  * Class MessageIdElement
  ===============================*/
 MessageIdElement::MessageIdElement(void) :
-        _msgId { 0 }, _clientMsgId { 0 }, _client { nullptr }, _next { nullptr }, _prev { nullptr }
+        _msgId { 0 }, _clientMsgId { 0 }, _client { nullptr }, _newTopic { nullptr }, _next { nullptr }, _prev { nullptr }
 {
 
 }
@@ -225,5 +252,5 @@ MessageIdElement::MessageIdElement(uint16_t msgId, Client* client, uint16_t clie
 
 MessageIdElement::~MessageIdElement(void)
 {
-
+    delete _newTopic;
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index b76a6e8..d3aa9a1 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -25,6 +25,7 @@ namespace MQTTSNGW
 {
 
 class Client;
+class Topic;
 class MessageIdElement;
 class Meutex;
 class Aggregater;
@@ -41,6 +42,8 @@ public:
             uint16_t clientMsgId);
     Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool erase = true);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
+    void setNewTopic(uint16_t msgId, Topic* topic);
+    Topic* takeNewTopic(uint16_t msgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
     void clear(void);
@@ -70,6 +73,7 @@ private:
     uint16_t _msgId;
     uint16_t _clientMsgId;
     Client* _client;
+    Topic* _newTopic;    // topic filter the client hadn't subscribed before
     MessageIdElement* _next;
     MessageIdElement* _prev;
 };
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index b7c5fa2..1dfc2c9 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -221,7 +221,7 @@ void MQTTSNSubscribeHandler::handleAggregateSubscribe(Client* client, MQTTSNPack
         string* topicName = new string(str.data, str.len); // topicName is delete by topic
         Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
-        _gateway->getAdapterManager()->getAggregater()->addAggregateTopic(&topic, client);
+        _gateway->getAdapterManager()->getAggregater()->addAggregateTopic(&topic, client, msgId);
 
         subscribe->setMsgId(msgId);
         Event* ev = new Event();
-- 
2.43.0


From 42a90e343ea806a1f84df84cb8bd2dd6806558e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 45/80] fix: PUBACK and SUBACK were lost for good after 20
 requests without an answer

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp |  4 ++--
 MQTTSNGateway/src/MQTTSNGWTopic.cpp  | 11 +++++++++++
 MQTTSNGateway/src/MQTTSNGWTopic.h    |  1 +
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index d267389..f29a717 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -183,12 +183,12 @@ void Client::clearWaitedSubTopicId(void)
 
 void Client::setWaitedPubTopicId(uint16_t msgId, uint16_t topicId, MQTTSN_topicid* topic)
 {
-    _waitedPubTopicIdMap.add(msgId, topicId, topic);
+    _waitedPubTopicIdMap.addNewest(msgId, topicId, topic);
 }
 
 void Client::setWaitedSubTopicId(uint16_t msgId, uint16_t topicId, MQTTSN_topicid* topic)
 {
-    _waitedSubTopicIdMap.add(msgId, topicId, topic);
+    _waitedSubTopicIdMap.addNewest(msgId, topicId, topic);
 }
 
 bool Client::checkTimeover(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index ed22244..920c182 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -515,6 +515,17 @@ TopicIdMapElement* TopicIdMap::add(uint16_t msgId, uint16_t topicId, MQTTSN_topi
     return elm;
 }
 
+/* add(), for which the oldest element makes room: its request might never be acknowledged */
+TopicIdMapElement* TopicIdMap::addNewest(uint16_t msgId, uint16_t topicId, MQTTSN_topicid* topic)
+{
+    erase(msgId);
+    if (_cnt > _maxInflight * 2)
+    {
+        erase(_first->_msgId);
+    }
+    return add(msgId, topicId, topic);
+}
+
 void TopicIdMap::erase(uint16_t msgId)
 {
     TopicIdMapElement* p = _first;
diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.h b/MQTTSNGateway/src/MQTTSNGWTopic.h
index fb0f8cc..b25ae1f 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.h
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.h
@@ -102,6 +102,7 @@ public:
     ~TopicIdMap();
     TopicIdMapElement* getElement(uint16_t msgId);
     TopicIdMapElement* add(uint16_t msgId, uint16_t topicId, MQTTSN_topicid* topic);
+    TopicIdMapElement* addNewest(uint16_t msgId, uint16_t topicId, MQTTSN_topicid* topic);
     void erase(uint16_t msgId);
     void clear(void);
 private:
-- 
2.43.0


From a6bd84f4f131f1fcbea1507ac9dfbe6273ef0bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 46/80] fix: the gateway never ended when its event queue was
 full at SIGINT

---
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index 772e0fe..f9d3ff8 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -114,7 +114,7 @@ void PacketHandleTask::run()
         /* wait Event */
         ev = eventQue->timedwait(EVENT_QUE_TIME_OUT);
 
-        if (ev->getEventType() == EtStop)
+        if (ev->getEventType() == EtStop || _gateway->IsStopping())
         {
             WRITELOG("%s %s stopped.\n", currentDateTime(), getTaskName());
             delete ev;
-- 
2.43.0


From dc314c10ee0df7e9bc8eb89f645735a9572572ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 47/80] fix: unanswered requests of a former session filled the
 aggregater's message id table

---
 .../src/MQTTSNAggregateConnectionHandler.cpp     |  1 +
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp         |  5 +++++
 MQTTSNGateway/src/MQTTSNGWAggregater.h           |  1 +
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp     | 16 ++++++++++++++++
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h       |  1 +
 5 files changed, 24 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 8b33044..2c799d4 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -75,6 +75,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         /* reset the table of msgNo and TopicId pare */
         client->clearWaitedPubTopicId();
         client->clearWaitedSubTopicId();
+        _gateway->getAdapterManager()->getAggregater()->clearMessageIdTable(client);
         client->clearClientSleepPacket();
 
         /* renew the TopicList */
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 42d8dc0..d011d0c 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -69,6 +69,11 @@ void Aggregater::clearMessageIdTable(void)
     _msgIdTable.clear();
 }
 
+void Aggregater::clearMessageIdTable(Client* client)
+{
+    _msgIdTable.clear(client);
+}
+
 uint16_t Aggregater::addMessageIdTable(Client* client, uint16_t msgId)
 {
     /* set Non secure client`s nextMsgId. otherwise Id is duplicated.*/
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 35b03e2..c6e84bf 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -47,6 +47,7 @@ public:
     Client* getClient(SensorNetAddress* addr);
     Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool completed = true);
     void clearMessageIdTable(void);
+    void clearMessageIdTable(Client* client);
     uint16_t addMessageIdTable(Client* client, uint16_t msgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index e2df48e..d472e73 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -186,6 +186,22 @@ void MessageIdTable::clear(MessageIdElement* elm)
     }
 }
 
+void MessageIdTable::clear(Client* client)
+{
+    _mutex.lock();
+    MessageIdElement* p = _head;
+    while (p)
+    {
+        MessageIdElement* next = p->_next;
+        if (p->_client == client)
+        {
+            clear(p);
+        }
+        p = next;
+    }
+    _mutex.unlock();
+}
+
 void MessageIdTable::clear(void)
 {
     _mutex.lock();
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index d3aa9a1..97c5a5e 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -46,6 +46,7 @@ public:
     Topic* takeNewTopic(uint16_t msgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
+    void clear(Client* client);
     void clear(void);
 private:
     MessageIdElement* find(uint16_t msgId);
-- 
2.43.0


From fb4202e9339ef94a56d8d8525dc846dfe7ffec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:09 +0000
Subject: [PATCH 48/80] fix: XBee frames longer than the buffer, shorter than
 their header or cut off were copied out of bounds or taken for packets

---
 .../src/linux/xbee/SensorNetwork.cpp          | 36 ++++++++++++++-----
 MQTTSNGateway/src/linux/xbee/SensorNetwork.h  |  4 ++-
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 4be4eae..706a58b 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -223,24 +223,29 @@ int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 {
-	uint8_t data[128];
+	uint8_t data[XBEE_MAX_FRAME];
 	int len;
 
 	while ( true )
 	{
 
-		if ( (len = readApiFrame(data)) > 0 )
+		if ( (len = readApiFrame(data, sizeof(data))) > 0 )
 		{
 
 			if ( data[0] == API_RESPONSE )
 			{
+				if ( len <= 12 || len - 12 > bufLen )
+				{
+					D_NWSTACK("    invalid length %d\r\n", len);
+					continue;
+				}
 				memcpy(clientAddr->_address64, data + 1, 8);
 				memcpy(clientAddr->_address16, data + 9, 2);
 				len -= 12;
 				memcpy( buf, data + 12, len);
 				return len;
 			}
-			else if ( data[0] == API_XMITSTATUS )
+			else if ( data[0] == API_XMITSTATUS && len > 5 )
 			{
 				_respCd = data[5];
 				_respId = data[1];
@@ -254,11 +259,11 @@ int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 	}
 }
 
-int XBee::readApiFrame(uint8_t* recvData){
+int XBee::readApiFrame(uint8_t* recvData, uint16_t bufLen){
 	uint8_t buf;
-	uint8_t pos = 0;
+	uint16_t pos = 0;
 	uint8_t checksum = 0;
-	uint8_t len = 0;
+	uint16_t len = 0;
 
 	 while ( _serialPort->recv(&buf) )
 	 {
@@ -279,6 +284,7 @@ int XBee::readApiFrame(uint8_t* recvData){
     {
     	goto errexit;
     }
+    len = (uint16_t)(buf << 8);
 
     if ( recv(&buf) < 0 ) // LSB length
 	{
@@ -286,9 +292,15 @@ int XBee::readApiFrame(uint8_t* recvData){
 	}
 	else
 	{
-		len = buf;
+		len |= buf;
 	}
 
+    if ( len > bufLen )
+    {
+    	D_NWSTACK("    too long frame %d\r\n", len);
+    	goto errexit;
+    }
+
     pos = 0;
     while ( len-- )
     {
@@ -300,7 +312,10 @@ int XBee::readApiFrame(uint8_t* recvData){
     	checksum += buf;
     }
 
-    recv(&buf);        // checksum
+    if ( recv(&buf) < 0 ) // checksum
+    {
+    	goto errexit;
+    }
     if ( (0xff - checksum ) == buf ){
     	D_NWSTACK("    checksum ok\r\n");
     	return pos;
@@ -390,7 +405,10 @@ int XBee::recv(uint8_t* buf)
 	{
 		if ( *buf == ESCAPE && _apiMode == 2 )
 		{
-			_serialPort->recv(buf);
+			if ( !_serialPort->recv(buf) )
+			{
+				return -1;
+			}
 			*buf = 0x20 ^ *buf;
 		}
 		return 0;
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
index c21ce91..dd11688 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
@@ -33,6 +33,8 @@ namespace MQTTSNGW
 
 #define XMIT_STATUS_TIME_OVER    5000
 
+#define XBEE_MAX_FRAME           (12 + 256)   // header of API_RESPONSE + RF payload
+
 #define START_BYTE               0x7e
 #define ESCAPE                   0x7d
 #define XON                      0x11
@@ -92,7 +94,7 @@ public:
 	void setApiMode(uint8_t mode);
 
 private:
-	int readApiFrame(uint8_t* recvData);
+	int readApiFrame(uint8_t* recvData, uint16_t bufLen);
 	int recv(uint8_t* buf);
 	int send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
-- 
2.43.0


From 46b390da25ed99d1ce42e67c43590805545d915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 49/80] fix: payloads over 241 octets were sent to an XBee as
 other, shorter frames

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 12 ++++++------
 MQTTSNGateway/src/linux/xbee/SensorNetwork.h   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 706a58b..802ac3a 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -214,11 +214,11 @@ int XBee::open(char* device, int baudrate)
 int XBee::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(payload, (uint8_t) payloadLen, &addr);
+	return send(payload, payloadLen, &addr);
 }
 
 int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(payload, (uint8_t) payloadLen, addr);
+	return send(payload, payloadLen, addr);
 }
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
@@ -330,14 +330,14 @@ errexit:
 	return -1;
 }
 
-int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
+int XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){
 	D_NWSTACK("\r\n===> Send:    ");
     uint8_t checksum = 0;
     _respCd = -1;
 
     _serialPort->send(START_BYTE);
-    send(0x00);              // Message Length
-    send(14 + pLen);         // Message Length
+    send((14 + pLen) >> 8);      // Message Length
+    send((14 + pLen) & 0xff);    // Message Length
 
     _serialPort->send(API_XMITREQUEST); // Transmit Request API
     checksum += API_XMITREQUEST;
@@ -368,7 +368,7 @@ int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
 
     D_NWSTACK("\r\n     Payload: ");
 
-    for ( uint8_t i = 0; i < pLen; i++ ){
+    for ( uint16_t i = 0; i < pLen; i++ ){
         send(payload[i]);     // Payload
         checksum += payload[i];
     }
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
index dd11688..8ca07c0 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
@@ -96,7 +96,7 @@ public:
 private:
 	int readApiFrame(uint8_t* recvData, uint16_t bufLen);
 	int recv(uint8_t* buf);
-	int send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr);
+	int send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
 
 	Semaphore _sem;
-- 
2.43.0


From 5609a0dcf4ead29f99c6eaabfc1c3258bc0c252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 50/80] fix: a late Transmit Status of an XBee made every later
 send fail, and frame id 0 never got a status

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 802ac3a..029b55f 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -245,7 +245,7 @@ int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 				memcpy( buf, data + 12, len);
 				return len;
 			}
-			else if ( data[0] == API_XMITSTATUS && len > 5 )
+			else if ( data[0] == API_XMITSTATUS && len > 5 && data[1] == _frameId && _respId != _frameId )
 			{
 				_respCd = data[5];
 				_respId = data[1];
@@ -333,7 +333,14 @@ errexit:
 int XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){
 	D_NWSTACK("\r\n===> Send:    ");
     uint8_t checksum = 0;
+
+    if (++_frameId == 0x00 ) // Frame ID, 0 suppresses the Transmit Status
+	{
+    	_frameId = 1;
+	}
+    _sem.timedwait(0);       // drop the post of a status which came too late for the former frame
     _respCd = -1;
+    _respId = 0;
 
     _serialPort->send(START_BYTE);
     send((14 + pLen) >> 8);      // Message Length
@@ -342,11 +349,7 @@ int XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){
     _serialPort->send(API_XMITREQUEST); // Transmit Request API
     checksum += API_XMITREQUEST;
 
-    if (_frameId++ == 0x00 ) // Frame ID
-	{
-    	_frameId = 1;
-	}
-    send(_frameId);
+    send(_frameId);                     // Frame ID
     checksum += _frameId;
 
 	for ( int i = 0; i < 8; i++)    // Address64
-- 
2.43.0


From b5000a978eaa847919e839d597517eac78eddf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:37 +0000
Subject: [PATCH 51/80] fix: XBee addresses of clients.conf, 16 hex digits,
 were taken as 8 raw characters and never matched

---
 .../src/linux/xbee/SensorNetwork.cpp          | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 029b55f..d9703db 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -53,8 +53,19 @@ void SensorNetAddress::setAddress(uint8_t* address64, uint8_t* address16)
 
 int SensorNetAddress::setAddress(string* address64)
 {
-	memcpy(_address64, address64->c_str(), 8);
-	memset(_address16, 0, sizeof(_address16));
+	string hex = address64->substr(0, address64->find(','));    // options of the client may follow
+
+	if ( hex.size() != 16 || hex.find_first_not_of("0123456789ABCDEFabcdef") != string::npos )
+	{
+		return -1;
+	}
+
+	for ( int i = 0; i < 8; i++ )
+	{
+		_address64[i] = (uint8_t)strtoul(hex.substr(i * 2, 2).c_str(), NULL, 16);
+	}
+	_address16[0] = 0xff;    // 16 bit address is unknown
+	_address16[1] = 0xfe;
 	return 0;
 }
 
@@ -69,8 +80,13 @@ void SensorNetAddress::setBroadcastAddress(void)
 
 bool SensorNetAddress::isMatch(SensorNetAddress* addr)
 {
+	static const uint8_t unknown[2] = { 0xff, 0xfe };
 
-	return (memcmp(this->_address64, addr->_address64, 8 ) == 0 &&  memcmp(this->_address16, addr->_address16, 2) == 0);
+	if ( memcmp(this->_address64, addr->_address64, 8) != 0 )
+	{
+		return false;
+	}
+	return memcmp(this->_address16, addr->_address16, 2) == 0 || memcmp(this->_address16, unknown, 2) == 0 || memcmp(addr->_address16, unknown, 2) == 0;
 }
 
 SensorNetAddress& SensorNetAddress::operator =(SensorNetAddress& addr)
-- 
2.43.0


From 19887beb31c70b8749ac6f161488cc5f6e52e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 52/80] fix: LoRaLink frames with an impossible length
 overflowed buffers, bytes outside frames and responses were taken for packets

---
 .../src/linux/loralink/SensorNetwork.cpp      | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 9d755db..dd7968c 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -33,6 +33,8 @@ using namespace MQTTSNGW;
 #define LORA_PHY_MAXPAYLOAD      256
 #define LORALINK_MAX_API_LEN     ( LORA_PHY_MAXPAYLOAD + 5 )  // PayloadType[1] + Rssi[2] + Snr[2]
 
+#define LORALINK_HEADER_LEN   7      // SrcAddr[1] + Rssi[2] + Snr[2] + PlType[1] + Crc[1]
+
 #define LORALINK_ACK          0x10
 #define LORALINK_NO_FREE_CH   0x20
 #define LORALINK_TX_TIMEOUT   0x40
@@ -170,6 +172,7 @@ LoRaLink::LoRaLink(){
     _serialPortRx = new SerialPort();
     _serialPortTx = new SerialPort();
     _respCd = 0;
+    memset(&_loRaLinkPara, 0, sizeof(_loRaLinkPara));
 }
 
 LoRaLink::~LoRaLink(){
@@ -237,12 +240,6 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 	{
 		if ( ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) == true ) && (_loRaLinkPara.Available == true) && ( _loRaLinkPara.Error == false ) )
 		{
-			clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
-
-			bufLen = _loRaLinkApi.PayloadLen;
-
-			memcpy( buf, _loRaLinkApi.Payload, bufLen );
-
 			switch ( (int) _loRaLinkApi.PayloadType )
 			{
 			case API_RSP_ACK:
@@ -259,14 +256,19 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 			case MQTT_SN:
-				memcpy( buf, _loRaLinkApi.Payload, bufLen );
-				return bufLen;
+				if ( _loRaLinkApi.PayloadLen > bufLen )
+				{
+					return 0;
+				}
+				clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
+				memcpy( buf, _loRaLinkApi.Payload, _loRaLinkApi.PayloadLen );
+				return _loRaLinkApi.PayloadLen;
 
 			default:
 				return 0;
 			}
 			_sem.post();
-			return bufLen;
+			return 0;
 
 		}
 		else
@@ -315,7 +317,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 		switch ( para->apipos )
 		{
 		case 0:
-			break;
+			continue;   // not in a frame
 
 		case 1:
 			val = (uint16_t)byte;
@@ -324,6 +326,12 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 
 		case 2:
 			api->PayloadLen += byte;
+			if ( api->PayloadLen < LORALINK_HEADER_LEN || api->PayloadLen > LORA_PHY_MAXPAYLOAD + LORALINK_HEADER_LEN )
+			{
+				D_LRSTACK("   invalid length %d\r\n", api->PayloadLen);
+				para->apipos = 0;   // wait for the next START_BYTE
+				continue;
+			}
 			break;
 
 		case 3:
@@ -363,7 +371,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 			{
 				para->Error = ( (0xff - para->checksum) != byte );
 				para->Available = true;
-				api->PayloadLen -= 7;   // 7 = SrcAddr[1] + Rssi[2] + Snr[2] + PlType[1] + Crc[1]
+				api->PayloadLen -= LORALINK_HEADER_LEN;
 				para->apipos = 0;
 				para->checksum = 0;
 				return true;
-- 
2.43.0


From ce1e08f40af61f99a19115db364715e1ced37ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 53/80] fix: payloads over 255 octets were cut before they were
 sent to LoRaLink

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index dd7968c..981a525 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -227,11 +227,11 @@ int LoRaLink::open(LoRaLinkModemType_t type, char* device, int baudrate)
 int LoRaLink::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, &addr);
+	return send(MQTT_SN, payload, payloadLen, &addr);
 }
 
 int LoRaLink:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, addr);
+	return send(MQTT_SN, payload, payloadLen, addr);
 }
 
 int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
@@ -414,7 +414,7 @@ int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t
 
     D_LRSTACK("\r\n     Payload: ");
 
-    for ( uint8_t i = 0; i < pLen; i++ ){
+    for ( uint16_t i = 0; i < pLen; i++ ){
         send(payload[i]);     // Payload
         chks += payload[i];
     }
-- 
2.43.0


From 906e28b859fb62994b0aaa13da798424794bc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 54/80] fix: a late response of LoRaLink made every later send
 fail

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 981a525..e52030f 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -240,6 +240,11 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 	{
 		if ( ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) == true ) && (_loRaLinkPara.Available == true) && ( _loRaLinkPara.Error == false ) )
 		{
+			if ( _loRaLinkApi.PayloadType != MQTT_SN && _respCd != 0 )
+			{
+				return 0;    // answered already
+			}
+
 			switch ( (int) _loRaLinkApi.PayloadType )
 			{
 			case API_RSP_ACK:
@@ -395,6 +400,7 @@ int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t
 	uint8_t buf[2] = { 0 };
 	uint8_t chks = 0;
 	uint16_t len = pLen + 3;   // 3 = DestAddr[1] + PayloadType[1] + Crc[1]
+	_sem.timedwait(0);         // drop the post of a response which came too late for the former frame
 	_respCd = 0;
 
     _serialPortTx->send(START_BYTE);
-- 
2.43.0


From 340e31f6dd22c51db6bca4d97a2b2645246bba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 55/80] fix: LoRaLink frames arriving on both ports at a time,
 or after an escape cut off, were mixed up

---
 .../src/linux/loralink/SensorNetwork.cpp      | 52 +++++++++++--------
 .../src/linux/loralink/SensorNetwork.h        |  6 +--
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index e52030f..f8d1618 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -172,7 +172,7 @@ LoRaLink::LoRaLink(){
     _serialPortRx = new SerialPort();
     _serialPortTx = new SerialPort();
     _respCd = 0;
-    memset(&_loRaLinkPara, 0, sizeof(_loRaLinkPara));
+    memset(_loRaLinkPara, 0, sizeof(_loRaLinkPara));
 }
 
 LoRaLink::~LoRaLink(){
@@ -238,14 +238,18 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 {
 	while ( true )
 	{
-		if ( ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) == true ) && (_loRaLinkPara.Available == true) && ( _loRaLinkPara.Error == false ) )
+		int port = readApiFrame();
+
+		if ( port >= 0 && (_loRaLinkPara[port].Available == true) && ( _loRaLinkPara[port].Error == false ) )
 		{
-			if ( _loRaLinkApi.PayloadType != MQTT_SN && _respCd != 0 )
+			LoRaLinkFrame_t* api = &_loRaLinkApi[port];
+
+			if ( api->PayloadType != MQTT_SN && _respCd != 0 )
 			{
 				return 0;    // answered already
 			}
 
-			switch ( (int) _loRaLinkApi.PayloadType )
+			switch ( (int) api->PayloadType )
 			{
 			case API_RSP_ACK:
 				_respCd = LORALINK_ACK;
@@ -261,13 +265,13 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 			case MQTT_SN:
-				if ( _loRaLinkApi.PayloadLen > bufLen )
+				if ( api->PayloadLen > bufLen )
 				{
 					return 0;
 				}
-				clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
-				memcpy( buf, _loRaLinkApi.Payload, _loRaLinkApi.PayloadLen );
-				return _loRaLinkApi.PayloadLen;
+				clientAddr->_devAddr = api->SourceAddr;
+				memcpy( buf, api->Payload, api->PayloadLen );
+				return api->PayloadLen;
 
 			default:
 				return 0;
@@ -285,32 +289,31 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 
-bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para)
+/* returns the port a frame is completed on, the frames of the ports may come interleaved */
+int LoRaLink::readApiFrame(void)
 {
 	uint8_t byte = 0;
 	uint16_t val = 0;
+	int port;
 
-	while ( recv(&byte) == 0 )
+	while ( (port = recv(&byte)) >= 0 )
 	{
+		LoRaLinkFrame_t* api = &_loRaLinkApi[port];
+		LoRaLinkReadParameters_t* para = &_loRaLinkPara[port];
+
 		if ( byte == START_BYTE )
 		{
 			para->apipos= 1;
 			para->Error = true;
 			para->Available = false;
+			para->Escape = false;
 			continue;
 		}
 
-		if ( para->apipos > 0 && byte == ESCAPE )
+		if ( para->apipos > 0 && byte == ESCAPE && para->Escape == false )
 		{
-			if( recv(&byte ) == 0 )
-			{
-				byte ^= PAD;  // decode
-			}
-			else
-			{
-				para->Escape = true;
-				continue;
-			}
+			para->Escape = true;
+			continue;
 		}
 
 		if( para->Escape == true )
@@ -379,7 +382,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 				api->PayloadLen -= LORALINK_HEADER_LEN;
 				para->apipos = 0;
 				para->checksum = 0;
-				return true;
+				return port;
 			}
 			else
 			{
@@ -391,7 +394,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 
 		para->apipos++;
 	}
-	return false;
+	return -1;
 }
 
 int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr)
@@ -461,6 +464,7 @@ int LoRaLink::recv(uint8_t* buf)
     struct timeval timeout;
     int maxfd;
     int fd;
+    int port;
     fd_set rfds;
 
     timeout.tv_sec = 1;
@@ -482,10 +486,12 @@ int LoRaLink::recv(uint8_t* buf)
     	if ( FD_ISSET(_serialPortRx->_fd, &rfds) )
 		{
     		fd = _serialPortRx->_fd;
+    		port = LORALINK_MODEM_RX;
 		}
     	else
 		{
     		fd = _serialPortTx->_fd;
+    		port = LORALINK_MODEM_TX;
 		}
 
 		if ( read(fd, buf, 1) == 1 )
@@ -506,7 +512,7 @@ int LoRaLink::recv(uint8_t* buf)
 			}
 			*/
             D_LRSTACK(" %02x", buf[0]);
-			return 0;
+			return port;
 		}
 	}
     return -1;
diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.h b/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
index 212dc46..47e178b 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
@@ -146,7 +146,7 @@ public:
 	void setApiMode(uint8_t mode);
 
 private:
-	bool readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para);
+	int readApiFrame(void);
 	int recv(uint8_t* buf);
 	int send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
@@ -156,8 +156,8 @@ private:
 	uint8_t _respCd;
 	SerialPort* _serialPortRx;
 	SerialPort* _serialPortTx;
-	LoRaLinkFrame_t _loRaLinkApi;
-	LoRaLinkReadParameters_t _loRaLinkPara;
+	LoRaLinkFrame_t _loRaLinkApi[2];            // by LoRaLinkModemType_t
+	LoRaLinkReadParameters_t _loRaLinkPara[2];
 };
 
 /*===========================================
-- 
2.43.0


From fb9ef5dca2f77907be0823e75ad3d62085c2d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 56/80] fix: the IPv6 gateway ran without its sockets when it
 could not join the multicast group

---
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 353d793..21a408d 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -364,7 +364,7 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
     {
         D_NWSTACK("\033[0m\033[0;31m error %d IPV6_JOIN_GROUP in Udp6Port::open\033[0m\033[0;37m\n", errno);
         close();
-        return false;
+        return -1;
     }
 
 #ifdef DEBUG_NW
@@ -377,7 +377,7 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
     {
         D_NWSTACK("\033[0m\033[0;31m error %s IPV6_MULTICAST_LOOP\033[0m\033[0;37m\n", strerror(errno));
         close();
-        return false;
+        return -1;
     }
     if (setsockopt(sock, IPPROTO_IPV6, IPV6_MULTICAST_HOPS, &hops, sizeof(hops)) < 0)
     {
-- 
2.43.0


From 93c2f97ba853b4766d239fefb6c8f76cae1df053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 57/80] fix: packets over TLS to the broker were delayed,
 blocked by session tickets or lost

---
 MQTTSNGateway/src/MQTTGWPacket.cpp           |  31 +--
 MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp |  24 ++-
 MQTTSNGateway/src/linux/Network.cpp          | 200 +++++++------------
 MQTTSNGateway/src/linux/Network.h            |   2 +-
 4 files changed, 106 insertions(+), 151 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index b8d0858..12ba5c1 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -16,6 +16,7 @@
  **************************************************************************************/
 
 #include "MQTTGWPacket.h"
+#include <errno.h>
 #include <string>
 #include <string.h>
 #include <sys/select.h>
@@ -191,24 +192,26 @@ static int recvRest(Network* network, unsigned char* buf, int len)
     int done = 0;
     while (done < len)
     {
-        if (!network->isSecure())
+        int rc = network->recv(buf + done, len - done > 0x7fff ? 0x7fff : len - done);
+        if (rc > 0)
         {
-            struct timeval timeout = { PACKET_RECV_TIMEOUT, 0 };
-            fd_set rset;
-            int sock = network->getSock();
-            FD_ZERO(&rset);
-            FD_SET(sock, &rset);
-            if (select(sock + 1, &rset, 0, 0, &timeout) <= 0)
-            {
-                return -1;
-            }
+            done += rc;
+            continue;
         }
-        int rc = network->recv(buf + done, len - done > 0x7fff ? 0x7fff : len - done);
-        if (rc <= 0)
+        if (rc == 0 || (errno != EAGAIN && errno != EWOULDBLOCK))
+        {
+            return -1;
+        }
+
+        struct timeval timeout = { PACKET_RECV_TIMEOUT, 0 };
+        fd_set rset;
+        int sock = network->getSock();
+        FD_ZERO(&rset);
+        FD_SET(sock, &rset);
+        if (select(sock + 1, &rset, 0, 0, &timeout) <= 0)
         {
             return -1;
         }
-        done += rc;
     }
     return len;
 }
@@ -223,7 +226,7 @@ int MQTTGWPacket::recv(Network* network)
     int rc = network->recv((unsigned char*) &_header.byte, 1);
     if (rc <= 0)
     {
-        return rc;
+        return rc == -1 && network->isSecure() && errno == EAGAIN ? -4 : rc;
     }
     /* read RemainingLength */
     do
diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
index 733c826..4e4be41 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
@@ -114,7 +114,7 @@ void BrokerRecvTask::run(void)
                         int sockfd = client->getNetwork()->getSock();
                         if (FD_ISSET(sockfd, &rset))
                         {
-                            packet = new MQTTGWPacket();
+                            nextPacket: packet = new MQTTGWPacket();
                             rc = 0;
                             /* read sockets */
                             _light->blueLight(true);
@@ -124,13 +124,19 @@ void BrokerRecvTask::run(void)
                                 if (log(client, packet) == -1)
                                 {
                                     delete packet;
-                                    goto nextClient;
+                                }
+                                else
+                                {
+                                    /* post a BrokerRecvEvent */
+                                    ev = new Event();
+                                    ev->setBrokerRecvEvent(client, packet);
+                                    _gateway->getPacketEventQue()->post(ev);
                                 }
 
-                                /* post a BrokerRecvEvent */
-                                ev = new Event();
-                                ev->setBrokerRecvEvent(client, packet);
-                                _gateway->getPacketEventQue()->post(ev);
+                                if (client->getNetwork()->isPending())
+                                {
+                                    goto nextPacket;    // more packets came in the same TLS record
+                                }
                             }
                             else
                             {
@@ -142,6 +148,10 @@ void BrokerRecvTask::run(void)
                                     client->getNetwork()->close();
                                     client->disconnected();
                                 }
+                                else if (rc == -4)
+                                {
+                                    // a part of a TLS record, or one without data
+                                }
                                 else if (rc == -1)
                                 {
                                     WRITELOG("%s BrokerRecvTask can't receive a packet from the broker errno=%d %s%s\n",
@@ -172,7 +182,7 @@ void BrokerRecvTask::run(void)
                             }
                         }
                     }
-                    nextClient: client = client->getNextClient();
+                    client = client->getNextClient();
                 }
             }
         }
diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 43fe862..1dc78cb 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -20,6 +20,7 @@
 #include <openssl/rand.h>
 #include <unistd.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <sys/socket.h>
 #include <regex>
 
@@ -245,7 +246,6 @@ Network::Network() :
 {
 	_ssl = 0;
 	_secureFlg = false;
-	_busy = false;
 	_sslValid = false;
 }
 
@@ -408,6 +408,7 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 		{
 			_session = SSL_get1_session(_ssl);
 		}
+		setNonBlocking(true);
 		_numOfInstance++;
 		_sslValid = true;
 		rc = true;
@@ -430,173 +431,115 @@ int Network::send(const uint8_t* buf, uint16_t length)
 	char errmsg[256];
 	fd_set rset;
 	fd_set wset;
-	bool writeBlockedOnRead = false;
 	int bpos = 0;
 
 	if (!_secureFlg)
 	{
 		return TCPStack::send(buf, length);
 	}
-	else
+
+	while (true)
 	{
 		_mutex.lock();
-
 		if ( !_ssl )
 		{
 			_mutex.unlock();
 			return -1;
 		}
-		_busy = true;
 
-		while (true)
-		{
-			FD_ZERO(&rset);
-			FD_ZERO(&wset);
-			FD_SET(getSock(), &rset);
-			FD_SET(getSock(), &wset);
+		ERR_clear_error();
+		int r = SSL_write(_ssl, buf + bpos, length);
+		int err = SSL_get_error(_ssl, r);
+		int sock = getSock();
+		_mutex.unlock();
 
-			int activity = select(getSock() + 1, &rset, &wset, 0, 0);
-			if (activity > 0)
+		switch (err)
+		{
+		case SSL_ERROR_NONE:
+			length -= r;
+			bpos += r;
+			if (length == 0)
 			{
-				if (FD_ISSET(getSock(), &wset) || (writeBlockedOnRead  && FD_ISSET(getSock(), &rset)))
-				{
-
-					writeBlockedOnRead = false;
-					int r = SSL_write(_ssl, buf + bpos, length);
-
-					switch (SSL_get_error(_ssl, r))
-					{
-					case SSL_ERROR_NONE:
-						length -= r;
-						bpos += r;
-						if (length == 0)
-						{
-							_busy = false;
-							_mutex.unlock();
-							return bpos;
-						}
-						break;
-					case SSL_ERROR_WANT_WRITE:
-						break;
-					case SSL_ERROR_WANT_READ:
-						writeBlockedOnRead = true;
-						break;
-					default:
-						ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
-						WRITELOG("TLSStack::send() default %s\n", errmsg);
-						_busy = false;
-						_mutex.unlock();
-						return -1;
-					}
-				}
+				return bpos;
 			}
+			continue;
+		case SSL_ERROR_WANT_WRITE:
+		case SSL_ERROR_WANT_READ:
+			break;
+		default:
+			ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
+			WRITELOG("TLSStack::send() default %s\n", errmsg);
+			return -1;
 		}
+
+		/* wait without the lock, so that packets can be received meanwhile */
+		struct timeval timeout = { 1, 0 };
+		FD_ZERO(&rset);
+		FD_ZERO(&wset);
+		FD_SET(sock, err == SSL_ERROR_WANT_WRITE ? &wset : &rset);
+		select(sock + 1, &rset, &wset, 0, &timeout);
 	}
 }
 
+/**
+ *  Never waits, like TCPStack::recv().
+ *  @return number of octets, 0 when the connection has ended, -1 with errno when there is nothing to read.
+ */
 int Network::recv(uint8_t* buf, uint16_t len)
 {
 	char errmsg[256];
-	bool writeBlockedOnRead = false;
-	bool readBlockedOnWrite = false;
-	bool readBlocked = false;
-	int rlen = 0;
-	int bpos = 0;
-	fd_set rset;
-	fd_set wset;
+	int rc = -1;
 
 	if (!_secureFlg)
 	{
 		return TCPStack::recv(buf, len);
 	}
 
-	if (_busy)
-	{
-		return 0;
-	}
 	_mutex.lock();
-
 	if ( !_ssl )
 	{
 		_mutex.unlock();
 		return 0;
 	}
 
-	_busy = true;
-loop:
-	do
-	{
-		readBlockedOnWrite = false;
-		readBlocked = false;
+	ERR_clear_error();
+	int rlen = SSL_read(_ssl, buf, len);
 
-		rlen = SSL_read(_ssl, buf + bpos, len - bpos);
-
-		switch (SSL_get_error(_ssl, rlen))
-		{
-		case SSL_ERROR_NONE:
-			_busy = false;
-			_mutex.unlock();
-			return rlen + bpos;
-			break;
-		case SSL_ERROR_ZERO_RETURN:
-			SSL_shutdown(_ssl);
-			_ssl = 0;
-			_numOfInstance--;
-			//TCPStack::close();
-			_busy = false;
-			_mutex.unlock();
-			return -1;
-			break;
-		case SSL_ERROR_WANT_READ:
-			readBlocked = true;
-			break;
-		case SSL_ERROR_WANT_WRITE:
-			readBlockedOnWrite = true;
-			break;
-		case SSL_ERROR_SYSCALL:
-			SSL_free(_ssl);
-			_ssl = 0;
-			_numOfInstance--;
-			//TCPStack::close();
-			_busy = false;
-			_mutex.unlock();
-			return -1;
-			break;
-		default:
-			ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
-			WRITELOG("Network::recv() %s\n", errmsg);
-			_busy = false;
-			_mutex.unlock();
-			return -1;
-		}
-	} while (SSL_pending(_ssl) && !readBlocked);
-
-	bpos += rlen;
-	while (true)
+	switch (SSL_get_error(_ssl, rlen))
 	{
-		FD_ZERO(&rset);
-		FD_ZERO(&wset);
-		FD_SET(getSock(), &rset);
-		FD_SET(getSock(), &wset);
+	case SSL_ERROR_NONE:
+		rc = rlen;
+		break;
+	case SSL_ERROR_ZERO_RETURN:
+		rc = 0;
+		break;
+	case SSL_ERROR_WANT_READ:
+	case SSL_ERROR_WANT_WRITE:
+		errno = EAGAIN;    // not a complete record, or one without data
+		break;
+	default:
+		ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
+		WRITELOG("Network::recv() %s\n", errmsg);
+		rc = 0;    // nothing can be received after an error
+		break;
+	}
+	_mutex.unlock();
+	return rc;
+}
 
-		int activity = select(getSock() + 1, &rset, &wset, 0, 0);
-		if (activity > 0)
-		{
-			if ((FD_ISSET(getSock(),&rset) && !writeBlockedOnRead)
-					|| (readBlockedOnWrite && FD_ISSET(getSock(), &wset)))
-			{
-				goto loop;
-			}
-		}
-		else
-		{
-			ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
-			WRITELOG("TLSStack::recv() select %s\n", errmsg);
-			_busy = false;
-			_mutex.unlock();
-			return -1;
-		}
+/**
+ *  @return true when there are data that have been taken off the socket already, select() can't tell.
+ */
+bool Network::isPending(void)
+{
+	bool rc = false;
+	if (_secureFlg)
+	{
+		_mutex.lock();
+		rc = _ssl && SSL_pending(_ssl) > 0;
+		_mutex.unlock();
 	}
+	return rc;
 }
 
 void Network::close(void)
@@ -611,7 +554,6 @@ void Network::close(void)
 			_numOfInstance--;
 			_ssl = 0;
 			_sslValid = false;
-			_busy = false;
 		}
 		if (_session && _numOfInstance == 0)
 		{
@@ -635,7 +577,7 @@ bool Network::isValid()
 	{
 		if (_secureFlg)
 		{
-			if (_sslValid && !_busy)
+			if (_sslValid)
 			{
 				return true;
 			}
diff --git a/MQTTSNGateway/src/linux/Network.h b/MQTTSNGateway/src/linux/Network.h
index f2fab7b..48a0513 100644
--- a/MQTTSNGateway/src/linux/Network.h
+++ b/MQTTSNGateway/src/linux/Network.h
@@ -78,6 +78,7 @@ public:
 	int  recv(uint8_t* buf, uint16_t len);
 
 	bool isValid(void);
+	bool isPending(void);
 	bool isSecure(void);
 	int  getSock(void);
     void setSecure(bool secureFlg);
@@ -89,7 +90,6 @@ private:
 	SSL* _ssl;
 	bool _secureFlg;
 	Mutex _mutex;
-	bool _busy;
 	bool _sslValid;
 };
 
-- 
2.43.0


From 98ede2d9f39fe646017e86b9e1a911579a8b45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 58/80] fix: the name in the broker's certificate was not
 checked properly

---
 MQTTSNGateway/src/linux/Network.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 1dc78cb..aa4ea6f 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -389,14 +389,21 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 		}
 
 		peer = SSL_get_peer_certificate(_ssl);
-		X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
+		int len = -1;
+		peer_CN[0] = 0;
+		if (peer != nullptr)
+		{
+			len = X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
+		}
+		const char* name = host;
 		char* pos = peer_CN;
-		if ( *pos == '*')
+		if ( strncmp(pos, "*.", 2) == 0 && strchr(host, '.') != nullptr)
 		{
-			while (*host++ != '.');
-			pos += 2;
+			name = strchr(host, '.');
+			pos += 1;
 		}
-		if ( strcmp(host, pos))
+		/* a name with NUL in it is not the one it looks like */
+		if ( len < 0 || (size_t) len != strlen(peer_CN) || strcmp(name, pos))
 		{
 			WRITELOG("SSL_get_peer_certificate() error: Broker %s dosen't match the host name %s\n", peer_CN, host);
 			SSL_free(_ssl);
-- 
2.43.0


From 53d314dccf208f3dbb2122d9ca94a55d2cbfe595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 59/80] fix: closing a TLS connection freed the SSL context
 another thread was connecting with

---
 MQTTSNGateway/src/linux/Network.cpp | 23 ++++++++---------------
 MQTTSNGateway/src/linux/Network.h   |  1 -
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index aa4ea6f..0a73e04 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -237,7 +237,6 @@ int TCPStack::getSock()
 /*========================================
  Class Network
  =======================================*/
-int Network::_numOfInstance = 0;
 SSL_CTX* Network::_ctx = 0;
 SSL_SESSION* Network::_session = 0;
 
@@ -317,6 +316,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 			{
 				ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 				WRITELOG("SSL_CTX_load_verify_locations() %s\n", errmsg);
+				SSL_CTX_free(_ctx);
+				_ctx = 0;
 				throw false;
 			}
 
@@ -326,6 +327,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 				{
 					ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 					WRITELOG("SSL_CTX_use_certificate_file() %s %s\n", certkey, errmsg);
+					SSL_CTX_free(_ctx);
+					_ctx = 0;
 					throw false;
 				}
 			}
@@ -335,6 +338,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 				{
 					ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 					WRITELOG("SSL_use_PrivateKey_file() %s %s\n", prvkey, errmsg);
+					SSL_CTX_free(_ctx);
+					_ctx = 0;
 					throw false;
 				}
 			}
@@ -416,7 +421,6 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 			_session = SSL_get1_session(_ssl);
 		}
 		setNonBlocking(true);
-		_numOfInstance++;
 		_sslValid = true;
 		rc = true;
 	}
@@ -558,22 +562,11 @@ void Network::close(void)
 		{
 			SSL_shutdown(_ssl);
 			SSL_free(_ssl);
-			_numOfInstance--;
 			_ssl = 0;
-			_sslValid = false;
-		}
-		if (_session && _numOfInstance == 0)
-		{
-			SSL_SESSION_free(_session);
-			_session = 0;
-		}
-		if (_ctx && _numOfInstance == 0)
-		{
-			SSL_CTX_free(_ctx);
-			_ctx = 0;
-			ERR_free_strings();
 		}
+		_sslValid = false;
 	}
+	/* _ctx and _session are kept, another thread can be connecting with them */
 	TCPStack::close();
 	_mutex.unlock();
 }
diff --git a/MQTTSNGateway/src/linux/Network.h b/MQTTSNGateway/src/linux/Network.h
index 48a0513..e94e226 100644
--- a/MQTTSNGateway/src/linux/Network.h
+++ b/MQTTSNGateway/src/linux/Network.h
@@ -86,7 +86,6 @@ public:
 private:
 	static SSL_CTX* _ctx;
 	static SSL_SESSION* _session;
-	static int _numOfInstance;
 	SSL* _ssl;
 	bool _secureFlg;
 	Mutex _mutex;
-- 
2.43.0


From 72ff96de69a1bbd71c1ad3d9dcabffd15cb34318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:02 +0000
Subject: [PATCH 60/80] fix: a TLS connection reset by the broker killed the
 gateway with SIGPIPE

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index b65275c..b3bb525 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -86,6 +86,7 @@ void Process::initialize(int argc, char** argv)
     signal(SIGINT, signalHandler);
     signal(SIGTERM, signalHandler);
     signal(SIGHUP, signalHandler);
+    signal(SIGPIPE, SIG_IGN);    // OpenSSL writes to connections the broker has reset
 
     int opt;
     while ((opt = getopt(_argc, _argv, "f:")) != -1)
-- 
2.43.0


From 240ebba31ce6a154d6271b8e62e44e6e9c3e1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 61/80] fix: acknowledgements of the broker never reached the
 secure client of an adapter

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 7e699db..f5db997 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -172,7 +172,7 @@ void Adapter::checkConnection(void)
 void Adapter::send(MQTTSNPacket* packet, Client* client)
 {
     Proxy* proxy = _proxy;
-    if (client->isSecureNetwork() && !_isSecure)
+    if (client->isSecureNetwork())
     {
         if (_isSecure)
         {
@@ -180,7 +180,7 @@ void Adapter::send(MQTTSNPacket* packet, Client* client)
         }
         else
         {
-            WRITELOG("%s %s  No Secure connections %s 's packet is discarded.%s\n",
+            WRITELOG("%s No Secure connections %s 's packet is discarded.%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
             return;
         }
-- 
2.43.0


From 3eaa407cbe2cc1dbbd91548d8d263d193d3e2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:54 +0000
Subject: [PATCH 62/80] fix: an aggregating gateway with secure and other
 clients mixed up its two broker connections

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    |  5 +++++
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      | 21 +++++++++++++++++--
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  3 ++-
 .../src/MQTTSNGWConnectionHandler.cpp         |  2 +-
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp  | 13 +++++++++---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h    |  2 +-
 .../src/MQTTSNGWSubscribeHandler.cpp          |  4 ++--
 7 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 6e032b7..8c839c7 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -309,6 +309,11 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
 
     for (Client* devClient : _gateway->getAdapterManager()->getAggregater()->getClients(&topic))
     {
+        if (devClient->isSecureNetwork() != client->isSecureNetwork())
+        {
+            continue;    // its subscription belongs to the other connection of the aggregater
+        }
+
         MQTTGWPacket* msg = new MQTTGWPacket();
         *msg = *packet;
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index d011d0c..39b0066 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -64,9 +64,9 @@ Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool co
     return _msgIdTable.getClientMsgId(msgId, clientMsgId, completed);
 }
 
-void Aggregater::clearMessageIdTable(void)
+void Aggregater::clearMessageIdTable(bool secure)
 {
-    _msgIdTable.clear();
+    _msgIdTable.clear(secure);
 }
 
 void Aggregater::clearMessageIdTable(Client* client)
@@ -136,6 +136,23 @@ AggregateTopicElement* Aggregater::findTopic(Topic* topic)
     return _topicTable.find(topic);
 }
 
+/* true if a client of the connection has subscribed to the topic */
+bool Aggregater::isSubscribed(Topic* topic, bool secure)
+{
+    AggregateTopicElement* elm = findTopic(topic);
+    if (elm != nullptr)
+    {
+        for (ClientTopicElement* p = elm->getFirstClientTopicElement(); p != nullptr; p = p->getNextClientElement())
+        {
+            if (p->getClient()->isSecureNetwork() == secure)
+            {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 std::vector<Client*> Aggregater::getClients(Topic* topic)
 {
     return _topicTable.getClients(topic);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index c6e84bf..b14b271 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -46,7 +46,7 @@ public:
     const char* getClientId(SensorNetAddress* addr);
     Client* getClient(SensorNetAddress* addr);
     Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool completed = true);
-    void clearMessageIdTable(void);
+    void clearMessageIdTable(bool secure);
     void clearMessageIdTable(Client* client);
     uint16_t addMessageIdTable(Client* client, uint16_t msgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
@@ -57,6 +57,7 @@ public:
 
     std::vector<Client*> getClients(Topic* topic);
     AggregateTopicElement* findTopic(Topic* topic);
+    bool isSubscribed(Topic* topic, bool secure);
     AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client, uint16_t msgId);
     void removeRejectedTopic(uint16_t msgId, Client* client);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 5d398ea..480c4dd 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -94,7 +94,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
     }
     else if (client->isAggregater())
     {
-        _gateway->getAdapterManager()->getAggregater()->clearMessageIdTable();
+        _gateway->getAdapterManager()->getAggregater()->clearMessageIdTable(client->isSecureNetwork());
     }
 
     Topics* topics = client->getTopics();
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index d472e73..0918117 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -202,12 +202,19 @@ void MessageIdTable::clear(Client* client)
     _mutex.unlock();
 }
 
-void MessageIdTable::clear(void)
+/* the connection of the secure or of the other clients has been replaced */
+void MessageIdTable::clear(bool secure)
 {
     _mutex.lock();
-    while (_head != nullptr)
+    MessageIdElement* p = _head;
+    while (p)
     {
-        clear(_head);
+        MessageIdElement* next = p->_next;
+        if (p->_client->isSecureNetwork() == secure)
+        {
+            clear(p);
+        }
+        p = next;
     }
     _mutex.unlock();
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index 97c5a5e..c2ef5a7 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -47,7 +47,7 @@ public:
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
     void clear(Client* client);
-    void clear(void);
+    void clear(bool secure);
 private:
     MessageIdElement* find(uint16_t msgId);
     MessageIdElement* find(Client* client, uint16_t clientMsgId);
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 1dfc2c9..1434f82 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -251,9 +251,9 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
         Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
         _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(&topic, client);
 
-        if (_gateway->getAdapterManager()->getAggregater()->findTopic(&topic) != nullptr)
+        if (_gateway->getAdapterManager()->getAggregater()->isSubscribed(&topic, client->isSecureNetwork()))
         {
-            /* other clients still need the subscription of the aggregater */
+            /* other clients still need the subscription of the aggregater on this connection */
             uint16_t clientMsgId = 0;
             _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
             MQTTSNPacket* unsuback = new MQTTSNPacket();
-- 
2.43.0


From 2851fd447c468eab4fad04901c26d897fd8222cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:54 +0000
Subject: [PATCH 63/80] fix: SUBSCRIBE with QoS -1 was forwarded to the broker,
 which closes the connection

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 1434f82..6cb9d98 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -42,6 +42,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     MQTTSN_topicid topicFilter;
     Topic* topic = nullptr;
     uint16_t topicId = 0;
+    uint8_t returnCode = MQTTSN_RC_REJECTED_INVALID_TOPIC_ID;
     MQTTGWPacket* subscribe;
     Event* ev1;
     Event* evsuback;
@@ -56,6 +57,15 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
         return nullptr;
     }
 
+    if (qos > 2)
+    {
+        /* MQTT has no QoS -1. The broker would close the connection */
+        qos = 0;
+        topicFilter.data.id = 0;
+        returnCode = MQTTSN_RC_NOT_SUPPORTED;
+        goto RespExit;
+    }
+
     if (topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED)
     {
         topic = client->getTopics()->getTopicById(&topicFilter);
@@ -126,7 +136,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     }
 
     RespExit: MQTTSNPacket* sSuback = new MQTTSNPacket();
-    sSuback->setSUBACK(qos, topicFilter.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
+    sSuback->setSUBACK(qos, topicFilter.data.id, msgId, returnCode);
     evsuback = new Event();
     evsuback->setClientSendEvent(client, sSuback);
     _gateway->getClientSendQue()->post(evsuback);
-- 
2.43.0


From d2288c9057274cffb9b5f14c5f04e20c17adb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:54 +0000
Subject: [PATCH 64/80] fix: PUBLISH with QoS 1 or 2 and message id 0 was
 forwarded to the broker, which closes the connection

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 71444b0..5f4e2a4 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -65,6 +65,13 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
     {
         return nullptr;
     }
+
+    if ((qos == 1 || qos == 2) && msgId == 0)
+    {
+        WRITELOG("%s Invalid MsgId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+        return nullptr;
+    }
+
     pub.msgId = msgId;
     pub.header.bits.dup = dup;
     pub.header.bits.qos = (qos == 3 ? 0 : qos);
-- 
2.43.0


From ccb62308b985a12acb84af2c097f20807cce1761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:54 +0000
Subject: [PATCH 65/80] fix: requests that were never completed shut all
 clients out of an aggregating gateway

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 0918117..12041dc 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -48,17 +48,16 @@ MessageIdTable::~MessageIdTable()
 
 MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, uint16_t clientMsgId)
 {
-    if (_cnt >= _maxSize)
-    {
-        return nullptr;
-    }
-
     MessageIdElement* elm = new MessageIdElement(0, client, clientMsgId);
     if (elm == nullptr)
     {
         return nullptr;
     }
     _mutex.lock();
+    if (_cnt >= _maxSize)
+    {
+        clear(_head);    // the oldest one, requests never completed must not keep out new ones
+    }
     if (_head == nullptr)
     {
         elm->_msgId = aggregater->msgId();
-- 
2.43.0


From 28a3ad859737c182918b1f81fc3822e186e43814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 66/80] fix: the log ring and its mutex were one segment when
 started from another directory

---
 MQTTSNGateway/src/linux/Threading.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Threading.cpp b/MQTTSNGateway/src/linux/Threading.cpp
index db26fbc..90bd622 100644
--- a/MQTTSNGateway/src/linux/Threading.cpp
+++ b/MQTTSNGateway/src/linux/Threading.cpp
@@ -273,7 +273,8 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 		close(fp);
 	}
 
-	key_t key = ftok(MQTTSNGW_RINGBUFFER_KEY, 1);
+	fileName = keyDirectory + string(MQTTSNGW_RINGBUFFER_KEY);
+	key_t key = ftok(fileName.c_str(), 1);
 
 	if ((_shmid = shmget(key, PROCESS_LOG_BUFFER_SIZE,
 	IPC_CREAT | IPC_EXCL | 0666)) >= 0)
@@ -314,7 +315,8 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 		throw Exception( "RingBuffer can't create a shared memory.", -1);
 	}
 
-	_pmx = new Mutex(MQTTSNGW_RB_MUTEX_KEY);
+	fileName = keyDirectory + string(MQTTSNGW_RB_MUTEX_KEY);
+	_pmx = new Mutex(fileName.c_str());
 }
 
 RingBuffer::~RingBuffer()
-- 
2.43.0


From a88c333d716e430b63e28d2554ba08c68867442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 67/80] fix: the log ring was overrun at its end and read out
 of order, twice or not at all

---
 MQTTSNGateway/src/linux/Threading.cpp | 142 ++++++--------------------
 1 file changed, 33 insertions(+), 109 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Threading.cpp b/MQTTSNGateway/src/linux/Threading.cpp
index 90bd622..3d7c8bb 100644
--- a/MQTTSNGateway/src/linux/Threading.cpp
+++ b/MQTTSNGateway/src/linux/Threading.cpp
@@ -287,7 +287,7 @@ RingBuffer::RingBuffer(const char* keyDirectory)
 			_buffer = (char*) _end + sizeof(uint16_t*);
 			_createFlg = true;
 
-			*_length = PROCESS_LOG_BUFFER_SIZE - sizeof(uint16_t*) * 3 - 16;
+			*_length = PROCESS_LOG_BUFFER_SIZE - (_buffer - (char*) _shmaddr);
 			*_start = *_end = 0;
 		}
 		else
@@ -346,132 +346,56 @@ void RingBuffer::put(char* data)
 {
 	_pmx->lock();
 
-	uint16_t dlen = strlen(data);
-	uint16_t blen = *_length - *_end;
+	size_t dlen = strlen(data);
+	size_t capacity = *_length - 1;    // _start == _end : Buffer is empty.
+	size_t used = (*_end + *_length - *_start) % *_length;
 
-	if (*_end > *_start)
+	if (dlen > capacity)
 	{
-		if (dlen < blen)
-		{
-			strncpy(_buffer + *_end, data, dlen);
-			if (*_end - *_start == 1)
-			{ // Buffer is empty.
-				*_start = *_end;
-			}
-			*_end += dlen;
-		}
-		else
-		{
-			strncpy(_buffer + *_end, data, blen);
-			strncpy(_buffer, data + blen, dlen - blen);
-			if (*_end - *_start == 1)
-			{ // Buffer is empty.
-				*_start = *_end;
-				*_end = dlen - blen;
-			}
-			else
-			{
-				*_end = dlen - blen;
-				*_start = *_end + 1;
-			}
-		}
+		data += dlen - capacity;
+		dlen = capacity;
 	}
-	else if (*_end == *_start)
+	if (used + dlen > capacity)
 	{
-		if (dlen < blen)
-		{
-			strncpy(_buffer + *_end, data, dlen);
-			*_end += dlen;
-		}
-		else
-		{
-			const char* errmsg = "RingBuffer Error: data is too long";
-			strcpy(_buffer + *_end, errmsg);
-			*_end += strlen(errmsg);
-		}
+		// the oldest data is overwritten
+		*_start = (*_start + used + dlen - capacity) % *_length;
+	}
+
+	size_t blen = *_length - *_end;
+	if (dlen < blen)
+	{
+		memcpy(_buffer + *_end, data, dlen);
 	}
 	else
-	{    // *_end < *_start
-		if (dlen < *_start - *_end)
-		{
-			strncpy(_buffer + *_end, data, dlen);
-			*_end += dlen;
-			*_start = *_end + 1;
-		}
-		else
-		{
-			if (dlen < blen)
-			{
-				strncpy(_buffer + *_end, data, dlen);
-				*_end += dlen;
-				*_start = *_end + 1;
-			}
-			else
-			{
-				strncpy(_buffer + *_end, data, blen);
-				strncpy(_buffer, data + blen, dlen - blen);
-				*_start = *_end;
-				*_end = dlen - blen;
-			}
-		}
+	{
+		memcpy(_buffer + *_end, data, blen);
+		memcpy(_buffer, data + blen, dlen - blen);
 	}
+	*_end = (*_end + dlen) % *_length;
 	_pmx->unlock();
 }
 
 int RingBuffer::get(char* buf, int length)
 {
-	int len = 0;
 	_pmx->lock();
 
-	if (*_end > *_start)
+	int len = (*_end + *_length - *_start) % *_length;
+	if (len > length)
 	{
-		if (length > *_end - *_start)
-		{
-			len = *_end - *_start;
-			if (len == 1)
-			{
-				len = 0;
-			}
-			strncpy(buf, _buffer + *_start, len);
-			*_start = *_end - 1;
-		}
-		else
-		{
-			len = length;
-			strncpy(buf, _buffer + *_start, len);
-			*_start = *_start + len;
-		}
+		len = length;
+	}
+
+	int blen = *_length - *_start;
+	if (len < blen)
+	{
+		memcpy(buf, _buffer + *_start, len);
 	}
-	else if (*_end < *_start)
+	else
 	{
-		int blen = *_length - *_start;
-		if (length > blen)
-		{
-			strncpy(buf, _buffer + *_start, blen);
-			*_start = 0;
-			if (length - (blen + *_end) > 0)
-			{
-				strncpy(buf + blen, _buffer, *_end);
-				len = blen + *_end;
-				if (*_end > 0)
-				{
-					*_start = *_end - 1;
-				}
-			}
-			else
-			{
-				strncpy(buf + blen, _buffer, length - blen);
-				len = length;
-				*_start = length - blen;
-			}
-		}
-		else
-		{
-			strncpy(buf, _buffer + *_start, length);
-			*_start += length;
-			len = length;
-		}
+		memcpy(buf, _buffer + *_start, blen);
+		memcpy(buf + blen, _buffer, len - blen);
 	}
+	*_start = (*_start + len) % *_length;
 	_pmx->unlock();
 	return len;
 }
-- 
2.43.0


From 8f13f6dcd09f1b306f00b1cb4c6a385004cf0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:57 +0000
Subject: [PATCH 68/80] fix: the gateway died when the log monitor was stopped

---
 MQTTSNGateway/src/linux/Threading.cpp | 39 ++++++++++++++++++++-------
 MQTTSNGateway/src/linux/Threading.h   |  1 +
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Threading.cpp b/MQTTSNGateway/src/linux/Threading.cpp
index 3d7c8bb..17cc52c 100644
--- a/MQTTSNGateway/src/linux/Threading.cpp
+++ b/MQTTSNGateway/src/linux/Threading.cpp
@@ -69,15 +69,23 @@ Mutex::Mutex(void)
 	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	_shmid = 0;
 	_pmutex = 0;
+	_createFlg = false;
 }
 
 Mutex::Mutex(const char* fileName)
 {
 	pthread_mutexattr_t attr;
 
-	key_t key = ftok(fileName, 1);
+	key_t key = ftok(fileName, 2);    // never the key of a RingBuffer that was left over
 
-	if ((_shmid = shmget(key, sizeof(pthread_mutex_t), IPC_CREAT | 0666)) < 0)
+	_createFlg = true;
+	if ((_shmid = shmget(key, sizeof(pthread_mutex_t), IPC_CREAT | IPC_EXCL | 0666)) < 0)
+	{
+		// the other process has created and initialized it.
+		_createFlg = false;
+		_shmid = shmget(key, sizeof(pthread_mutex_t), IPC_CREAT | 0666);
+	}
+	if (_shmid < 0)
 	{
 		throw Exception("Mutex can't create a shared memory.", -1);
 	}
@@ -87,12 +95,20 @@ Mutex::Mutex(const char* fileName)
 		throw Exception("Mutex can't attach shared memory.", -1);
 	}
 
+	if (!_createFlg)
+	{
+		return;
+	}
+
 	pthread_mutexattr_init(&attr);
 
 	if (pthread_mutexattr_setpshared(&attr, PTHREAD_PROCESS_SHARED) != 0)
 	{
 		throw Exception("Mutex can't set the process-shared flag", -1);
 	}
+#ifndef __APPLE__
+	pthread_mutexattr_setrobust(&attr, PTHREAD_MUTEX_ROBUST);
+#endif
 	if (pthread_mutex_init(_pmutex, &attr) != 0)
 	{
 		throw Exception("Mutex can't initialize.", -1);
@@ -103,9 +119,11 @@ Mutex::~Mutex(void)
 {
 	if (_pmutex)
 	{
-		pthread_mutex_lock(_pmutex);
-		pthread_mutex_unlock(_pmutex);
-		pthread_mutex_destroy(_pmutex);
+		shmdt(_pmutex);    // the other process may still use it.
+		if (_createFlg)
+		{
+			shmctl(_shmid, IPC_RMID, NULL);
+		}
 	}
 	else
 	{
@@ -113,10 +131,6 @@ Mutex::~Mutex(void)
 		pthread_mutex_unlock(&_mutex);
 		pthread_mutex_destroy(&_mutex);
 	}
-	if (_shmid)
-	{
-		shmctl(_shmid, IPC_RMID, NULL);
-	}
 }
 
 void Mutex::lock(void)
@@ -125,6 +139,13 @@ void Mutex::lock(void)
 	if (_pmutex)
 	{
 		rc = pthread_mutex_lock(_pmutex);
+#ifndef __APPLE__
+		if (rc == EOWNERDEAD)
+		{
+			// a process ended while it held the mutex.
+			rc = pthread_mutex_consistent(_pmutex);
+		}
+#endif
 	}
 	else
 	{
diff --git a/MQTTSNGateway/src/linux/Threading.h b/MQTTSNGateway/src/linux/Threading.h
index 677e7ee..5fc5f1f 100644
--- a/MQTTSNGateway/src/linux/Threading.h
+++ b/MQTTSNGateway/src/linux/Threading.h
@@ -50,6 +50,7 @@ private:
 	pthread_mutex_t _mutex;
 	pthread_mutex_t* _pmutex;
 	int   _shmid;
+	bool  _createFlg;
 };
 
 /*=====================================
-- 
2.43.0


From 1c323251d2b360b1f63b002dc184dee6fd5abd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 69/80] fix: a connection that was lost ended the will exchange
 of the next CONNECT

---
 MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp | 2 ++
 MQTTSNGateway/src/MQTTSNGWClient.cpp                   | 4 ++++
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp        | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 2c799d4..1dfdef2 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -63,6 +63,8 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
     memset(connectData, 0, sizeof(Connect));
 
     client->disconnected();
+    client->setWaitWillTopicFlg(false);
+    client->setWaitWillMsgFlg(false);
 
     Topics* topics = client->getTopics();
 
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index f29a717..584f37c 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -324,6 +324,10 @@ void Client::connackSended(int rc)
 
 void Client::disconnected(void)
 {
+    if (_status == Cstat_Disconnected)
+    {
+        return;    // the client may be exchanging its will for the next connection already
+    }
     _status = Cstat_Disconnected;
     _waitWillTopicFlg = false;
     _waitWillMsgFlg = false;
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 480c4dd..9fd6b2a 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -91,6 +91,8 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
     if (!client->isAdapter())
     {
         client->disconnected();
+        client->setWaitWillTopicFlg(false);
+        client->setWaitWillMsgFlg(false);
     }
     else if (client->isAggregater())
     {
-- 
2.43.0


From 808a35d6f3a9f9bc4c6696fcca0eec47ed70bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:54 +0000
Subject: [PATCH 70/80] fix: a new connection with the broker was taken for the
 lost one and closed

---
 MQTTSNGateway/src/MQTTGWPacket.cpp           | 16 +++---
 MQTTSNGateway/src/MQTTGWPacket.h             |  2 +-
 MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp | 15 +++---
 MQTTSNGateway/src/MQTTSNGWClient.cpp         | 15 ++++++
 MQTTSNGateway/src/MQTTSNGWClient.h           |  2 +
 MQTTSNGateway/src/linux/Network.cpp          | 53 +++++++++++++++++---
 MQTTSNGateway/src/linux/Network.h            | 14 ++++--
 7 files changed, 92 insertions(+), 25 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 12ba5c1..81b51b6 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -187,12 +187,12 @@ MQTTGWPacket::~MQTTGWPacket()
  * Reads exactly len bytes of a packet. TCP may deliver them in any number of pieces.
  * @return len, or -1 when the connection failed, ended or stalled in the middle of the packet
  */
-static int recvRest(Network* network, unsigned char* buf, int len)
+static int recvRest(Network* network, unsigned int connectionNo, unsigned char* buf, int len)
 {
     int done = 0;
     while (done < len)
     {
-        int rc = network->recv(buf + done, len - done > 0x7fff ? 0x7fff : len - done);
+        int rc = network->recv(buf + done, len - done > 0x7fff ? 0x7fff : len - done, connectionNo);
         if (rc > 0)
         {
             done += rc;
@@ -206,6 +206,10 @@ static int recvRest(Network* network, unsigned char* buf, int len)
         struct timeval timeout = { PACKET_RECV_TIMEOUT, 0 };
         fd_set rset;
         int sock = network->getSock();
+        if (sock <= 0)
+        {
+            return -1;
+        }
         FD_ZERO(&rset);
         FD_SET(sock, &rset);
         if (select(sock + 1, &rset, 0, 0, &timeout) <= 0)
@@ -216,14 +220,14 @@ static int recvRest(Network* network, unsigned char* buf, int len)
     return len;
 }
 
-int MQTTGWPacket::recv(Network* network)
+int MQTTGWPacket::recv(Network* network, unsigned int connectionNo)
 {
     int len = 0;
     int multiplier = 1;
     unsigned char c;
 
     /* read First Byte of Packet */
-    int rc = network->recv((unsigned char*) &_header.byte, 1);
+    int rc = network->recv((unsigned char*) &_header.byte, 1, connectionNo);
     if (rc <= 0)
     {
         return rc == -1 && network->isSecure() && errno == EAGAIN ? -4 : rc;
@@ -235,7 +239,7 @@ int MQTTGWPacket::recv(Network* network)
         {
             return -2;
         }
-        if (recvRest(network, &c, 1) == -1)
+        if (recvRest(network, connectionNo, &c, 1) == -1)
         {
             return -1;
         }
@@ -254,7 +258,7 @@ int MQTTGWPacket::recv(Network* network)
         }
 
         /* read Payload */
-        if (recvRest(network, _data, _remainingLength) == -1)
+        if (recvRest(network, connectionNo, _data, _remainingLength) == -1)
         {
             return -1;
         }
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index f7a57cd..9c50c2f 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -211,7 +211,7 @@ class MQTTGWPacket
 public:
     MQTTGWPacket();
     ~MQTTGWPacket();
-    int recv(Network* network);
+    int recv(Network* network, unsigned int connectionNo);
     int send(Network* network);
     int getType(void);
     int getPacketData(unsigned char* buf);
diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
index 4e4be41..353862f 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
@@ -80,9 +80,9 @@ void BrokerRecvTask::run(void)
 
         while (client)
         {
-            if (client->getNetwork()->isValid())
+            sockfd = client->getNetwork()->getSock();
+            if (client->getNetwork()->isValid() && sockfd > 0)
             {
-                sockfd = client->getNetwork()->getSock();
                 FD_SET(sockfd, &rset);
                 FD_SET(sockfd, &wset);
                 if (sockfd > maxSock)
@@ -111,14 +111,15 @@ void BrokerRecvTask::run(void)
                     _light->blueLight(false);
                     if (client->getNetwork()->isValid())
                     {
+                        unsigned int connectionNo = client->getNetwork()->getConnectionNo();
                         int sockfd = client->getNetwork()->getSock();
-                        if (FD_ISSET(sockfd, &rset))
+                        if (sockfd > 0 && FD_ISSET(sockfd, &rset))
                         {
                             nextPacket: packet = new MQTTGWPacket();
                             rc = 0;
                             /* read sockets */
                             _light->blueLight(true);
-                            rc = packet->recv(client->getNetwork());
+                            rc = packet->recv(client->getNetwork(), connectionNo);
                             if (rc > 0)
                             {
                                 if (log(client, packet) == -1)
@@ -145,8 +146,7 @@ void BrokerRecvTask::run(void)
                                     WRITELOG("%s BrokerRecvTask %s is disconnected by the broker.%s\n",
                                     ERRMSG_HEADER, client->getClientId(),
                                     ERRMSG_FOOTER);
-                                    client->getNetwork()->close();
-                                    client->disconnected();
+                                    client->connectionLost(connectionNo);
                                 }
                                 else if (rc == -4)
                                 {
@@ -176,8 +176,7 @@ void BrokerRecvTask::run(void)
 
                                 if (rc == -2 || rc == -3 || (rc == -1 && (client->isActive() || client->isSleep() || client->isAwake())))
                                 {
-                                    client->getNetwork()->close();
-                                    client->disconnected();
+                                    client->connectionLost(connectionNo);
                                 }
                             }
                         }
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 584f37c..8b6fb8d 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -307,7 +307,9 @@ void Client::updateStatus(ClientStatus stat)
 
 void Client::connectSended()
 {
+    _statusMutex.lock();
     _status = Cstat_Connecting;
+    _statusMutex.unlock();
 }
 
 void Client::connackSended(int rc)
@@ -333,6 +335,19 @@ void Client::disconnected(void)
     _waitWillMsgFlg = false;
 }
 
+/**
+ *  the connection with the broker has ended. It is of no account when it has been closed or replaced already.
+ */
+void Client::connectionLost(unsigned int connectionNo)
+{
+    _statusMutex.lock();
+    if (_network->close(connectionNo))
+    {
+        disconnected();
+    }
+    _statusMutex.unlock();
+}
+
 void Client::tryConnect(void)
 {
     _status = Cstat_TryConnecting;
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index 04f5e67..0b53f84 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -211,6 +211,7 @@ public:
     void connectSended(void);
     void connackSended(int rc);
     void disconnected(void);
+    void connectionLost(unsigned int connectionNo);
     bool isConnectSendable(void);
     void tryConnect(void);
     ClientStatus getClientStatus(void);
@@ -290,6 +291,7 @@ private:
     Timer _keepAliveTimer;
     uint32_t _keepAliveMsec;
 
+    Mutex _statusMutex;
     ClientStatus _status;
     bool _waitWillMsgFlg;
     bool _waitWillTopicFlg { false };
diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 0a73e04..61f4483 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -41,6 +41,7 @@ TCPStack::TCPStack()
 {
 	_addrinfo = 0;
 	_sockfd = 0;
+	_connectionNo = 0;
 }
 
 TCPStack::~TCPStack()
@@ -153,9 +154,21 @@ int TCPStack::send(const uint8_t* buf, int length)
 #endif
 }
 
-int TCPStack::recv(uint8_t* buf, int len)
+/**
+ *  @return 0 also when the connection has been closed or replaced by this side.
+ */
+int TCPStack::recv(uint8_t* buf, int len, unsigned int connectionNo)
 {
-	return ::recv(_sockfd, buf, len, MSG_DONTWAIT);  // readiness may belong to a connection closed meanwhile
+	int rc = 0;
+	_mutex.lock();    // the socket can't be closed and used for something else meanwhile
+	if (_sockfd > 0 && connectionNo == _connectionNo)
+	{
+		rc = ::recv(_sockfd, buf, len, MSG_DONTWAIT);
+	}
+	int err = errno;
+	_mutex.unlock();
+	errno = err;
+	return rc;
 }
 
 bool TCPStack::connect(const char* host, const char* service)
@@ -203,7 +216,10 @@ bool TCPStack::connect(const char* host, const char* service)
 		return false;
 	}
 
+	_mutex.lock();
+	_connectionNo++;
 	_sockfd = sockfd;
+	_mutex.unlock();
 	return true;
 }
 
@@ -234,6 +250,11 @@ int TCPStack::getSock()
 	return _sockfd;
 }
 
+unsigned int TCPStack::getConnectionNo()
+{
+	return _connectionNo;
+}
+
 /*========================================
  Class Network
  =======================================*/
@@ -496,18 +517,18 @@ int Network::send(const uint8_t* buf, uint16_t length)
  *  Never waits, like TCPStack::recv().
  *  @return number of octets, 0 when the connection has ended, -1 with errno when there is nothing to read.
  */
-int Network::recv(uint8_t* buf, uint16_t len)
+int Network::recv(uint8_t* buf, uint16_t len, unsigned int connectionNo)
 {
 	char errmsg[256];
 	int rc = -1;
 
 	if (!_secureFlg)
 	{
-		return TCPStack::recv(buf, len);
+		return TCPStack::recv(buf, len, connectionNo);
 	}
 
 	_mutex.lock();
-	if ( !_ssl )
+	if ( !_ssl || connectionNo != getConnectionNo() )
 	{
 		_mutex.unlock();
 		return 0;
@@ -556,6 +577,27 @@ bool Network::isPending(void)
 void Network::close(void)
 {
 	_mutex.lock();
+	closeConnection();
+	_mutex.unlock();
+}
+
+/**
+ *  close the connection unless it has been closed or replaced already.
+ */
+bool Network::close(unsigned int connectionNo)
+{
+	_mutex.lock();
+	bool rc = (connectionNo == getConnectionNo() && TCPStack::isValid());
+	if (rc)
+	{
+		closeConnection();
+	}
+	_mutex.unlock();
+	return rc;
+}
+
+void Network::closeConnection(void)
+{
 	if (_secureFlg)
 	{
 		if (_ssl)
@@ -568,7 +610,6 @@ void Network::close(void)
 	}
 	/* _ctx and _session are kept, another thread can be connecting with them */
 	TCPStack::close();
-	_mutex.unlock();
 }
 
 bool Network::isValid()
diff --git a/MQTTSNGateway/src/linux/Network.h b/MQTTSNGateway/src/linux/Network.h
index e94e226..9b7c837 100644
--- a/MQTTSNGateway/src/linux/Network.h
+++ b/MQTTSNGateway/src/linux/Network.h
@@ -24,6 +24,8 @@
 #include <openssl/ssl.h>
 #include <openssl/err.h>
 
+#include <atomic>
+
 #include "Threading.h"
 #include "MQTTSNGWDefines.h"
 
@@ -48,16 +50,18 @@ public:
 	bool connect(const char* host, const char* service);
 
 	int send(const uint8_t* buf, int length);
-	int recv(uint8_t* buf, int len);
+	int recv(uint8_t* buf, int len, unsigned int connectionNo);
 	void close();
 
 	void setNonBlocking(const bool);
 
 	bool isValid();
 	int getSock();
+	unsigned int getConnectionNo();    // tells a connection from the one that replaces it
 
 private:
-	int _sockfd;
+	atomic<int> _sockfd;
+	atomic<unsigned int> _connectionNo;
 	addrinfo* _addrinfo;
 	Mutex _mutex;
 };
@@ -74,8 +78,9 @@ public:
 	bool connect(const char* host, const char* port, const char* caPath, const char* caFile, const char* cert, const char* prvkey);
 	bool connect(const char* host, const char* port);
 	void close(void);
+	bool close(unsigned int connectionNo);
 	int  send(const uint8_t* buf, uint16_t length);
-	int  recv(uint8_t* buf, uint16_t len);
+	int  recv(uint8_t* buf, uint16_t len, unsigned int connectionNo);
 
 	bool isValid(void);
 	bool isPending(void);
@@ -86,10 +91,11 @@ public:
 private:
 	static SSL_CTX* _ctx;
 	static SSL_SESSION* _session;
+	void closeConnection(void);
 	SSL* _ssl;
 	bool _secureFlg;
 	Mutex _mutex;
-	bool _sslValid;
+	atomic<bool> _sslValid;
 };
 
 #endif /* NETWORK_H_ */
-- 
2.43.0


From acfdff906b5e0422ffbd1fa55ec6df6d146492df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:07 +0000
Subject: [PATCH 71/80] fix: threads wrote the time stamps of their log entries
 into one buffer

---
 MQTTSNGateway/src/linux/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Timer.cpp b/MQTTSNGateway/src/linux/Timer.cpp
index 487b50b..cbabc71 100644
--- a/MQTTSNGateway/src/linux/Timer.cpp
+++ b/MQTTSNGateway/src/linux/Timer.cpp
@@ -29,14 +29,14 @@ using namespace MQTTSNGW;
 /*=====================================
  Print Current Date & Time
  =====================================*/
-char theCurrentTime[32];
+static thread_local char theCurrentTime[32];    // entries are written to the log by several threads
 
 const char* currentDateTime()
 {
 	struct timeval now;
 	struct tm tstruct;
 	gettimeofday(&now, 0);
-	tstruct = *localtime(&now.tv_sec);
+	localtime_r(&now.tv_sec, &tstruct);
 	strftime(theCurrentTime, sizeof(theCurrentTime), "%Y%m%d %H%M%S", &tstruct);
 	sprintf(theCurrentTime + 15, ".%03d", (int)now.tv_usec / 1000 );
 	return theCurrentTime;
-- 
2.43.0


From fe8aa360be1a74455c5c943a8e83465d08022ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:14 +0000
Subject: [PATCH 72/80] fix: threads changed the state of clients, proxies and
 the process without synchronisation

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 12 +++++++++++-
 MQTTSNGateway/src/MQTTSNGWAdapter.h   |  3 +++
 MQTTSNGateway/src/MQTTSNGWClient.cpp  | 24 +++++++++++++++++++-----
 MQTTSNGateway/src/MQTTSNGWClient.h    |  8 +++++---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp |  2 +-
 MQTTSNGateway/src/MQTTSNGWProcess.h   |  3 ++-
 MQTTSNGateway/src/MQTTSNGateway.h     |  2 +-
 MQTTSNGateway/src/linux/Timer.h       |  3 ++-
 8 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index f5db997..c4c54a9 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -263,7 +263,7 @@ void Proxy::checkConnection(Client* client)
         ev->setClientRecvEvent(client, packet);
         _gateway->getPacketEventQue()->post(ev);
     }
-    else if ((client->isActive() && _keepAliveTimer.isTimeup()) || (_isWaitingResp && _responseTimer.isTimeup()))
+    else if ((client->isActive() && isPingDue()) || (_isWaitingResp && _responseTimer.isTimeup()))
     {
         MQTTSNPacket* packet = new MQTTSNPacket();
         MQTTSNString clientId = MQTTSNString_initializer;
@@ -284,7 +284,17 @@ void Proxy::checkConnection(Client* client)
 
 void Proxy::resetPingTimer(void)
 {
+    _mutex.lock();
     _keepAliveTimer.start(PROXY_KEEPALIVE_DURATION * 1000UL);
+    _mutex.unlock();
+}
+
+bool Proxy::isPingDue(void)
+{
+    _mutex.lock();
+    bool rc = _keepAliveTimer.isTimeup();
+    _mutex.unlock();
+    return rc;
 }
 
 void Proxy::recv(MQTTSNPacket* packet, Client* client)
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.h b/MQTTSNGateway/src/MQTTSNGWAdapter.h
index 20c9a87..c69e7a1 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.h
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.h
@@ -18,6 +18,7 @@
 #define MQTTSNGATEWAY_SRC_MQTTSNGWADAPTER_H_
 
 #include <stdint.h>
+#include "Threading.h"
 #include "Timer.h"
 namespace MQTTSNGW
 {
@@ -87,9 +88,11 @@ public:
 
 private:
     void sendSuspendedPacket(void);
+    bool isPingDue(void);
     Gateway* _gateway;
     EventQue* _suspendedPacketEventQue
     { nullptr };
+    Mutex _mutex;    // resetPingTimer() is called by BrokerSendTask too
     Timer _keepAliveTimer;
     Timer _responseTimer;
     bool _isWaitingResp { false };
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 8b6fb8d..58440ff 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -232,6 +232,7 @@ bool Client::erasable(void)
 
 void Client::updateStatus(MQTTSNPacket* packet)
 {
+    _statusMutex.lock();
     if (((_status == Cstat_Disconnected) || (_status == Cstat_Lost)) && packet->getType() == MQTTSN_CONNECT)
     {
         setKeepAlive(packet);
@@ -262,7 +263,7 @@ void Client::updateStatus(MQTTSNPacket* packet)
             }
             else
             {
-                disconnected();
+                setDisconnected();
             }
             break;
         default:
@@ -285,7 +286,7 @@ void Client::updateStatus(MQTTSNPacket* packet)
             }
             else
             {
-                disconnected();
+                setDisconnected();
             }
             break;
         case MQTTSN_PINGREQ:
@@ -297,12 +298,16 @@ void Client::updateStatus(MQTTSNPacket* packet)
         default:
             break;
         }
-    }DEBUGLOG("Client Status = %s\n", theClientStatus[_status]);
+    }
+    _statusMutex.unlock();
+    DEBUGLOG("Client Status = %s\n", theClientStatus[_status]);
 }
 
 void Client::updateStatus(ClientStatus stat)
 {
+    _statusMutex.lock();
     _status = stat;
+    _statusMutex.unlock();
 }
 
 void Client::connectSended()
@@ -314,17 +319,26 @@ void Client::connectSended()
 
 void Client::connackSended(int rc)
 {
+    _statusMutex.lock();
     if (rc == MQTTSN_RC_ACCEPTED)
     {
         _status = Cstat_Active;
     }
     else
     {
-        disconnected();
+        setDisconnected();
     }
+    _statusMutex.unlock();
 }
 
 void Client::disconnected(void)
+{
+    _statusMutex.lock();
+    setDisconnected();
+    _statusMutex.unlock();
+}
+
+void Client::setDisconnected(void)
 {
     if (_status == Cstat_Disconnected)
     {
@@ -343,7 +357,7 @@ void Client::connectionLost(unsigned int connectionNo)
     _statusMutex.lock();
     if (_network->close(connectionNo))
     {
-        disconnected();
+        setDisconnected();
     }
     _statusMutex.unlock();
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index 0b53f84..902acbf 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -18,6 +18,7 @@
 #ifndef MQTTSNGWCLIENT_H_
 #define MQTTSNGWCLIENT_H_
 
+#include <atomic>
 #include <Timer.h>    // Timer class
 #include "MQTTSNGWProcess.h"
 #include "MQTTGWPacket.h"
@@ -270,6 +271,7 @@ public:
     Client* getNextClient(void);
 
 private:
+    void setDisconnected(void);
     PacketQue<MQTTGWPacket> _clientSleepPacketQue;
     PacketQue<MQTTSNPacket> _proxyPacketQue;
 
@@ -292,9 +294,9 @@ private:
     uint32_t _keepAliveMsec;
 
     Mutex _statusMutex;
-    ClientStatus _status;
-    bool _waitWillMsgFlg;
-    bool _waitWillTopicFlg { false };
+    std::atomic<ClientStatus> _status;
+    std::atomic<bool> _waitWillMsgFlg;
+    std::atomic<bool> _waitWillTopicFlg { false };
 
     uint16_t _packetId;
     uint8_t _snMsgId;
diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index b3bb525..4fb2b04 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -40,7 +40,7 @@ MultiTaskProcess* MQTTSNGW::theMultiTaskProcess = nullptr;
 /*
  *  Save the type of signal
  */
-volatile int theSignaled = 0;
+std::atomic<int> theSignaled(0);
 
 static void signalHandler(int sig)
 {
diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.h b/MQTTSNGateway/src/MQTTSNGWProcess.h
index 7827d59..5a97d96 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.h
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.h
@@ -17,6 +17,7 @@
 #ifndef MQTTSNGWPROCESS_H_
 #define MQTTSNGWPROCESS_H_
 
+#include <atomic>
 #include <exception>
 #include <string>
 #include <signal.h>
@@ -94,7 +95,7 @@ private:
     Thread* _threadList[MQTTSNGW_MAX_TASK];
     Mutex _mutex;
     int _threadCount;
-    int _stopCount;
+    std::atomic<int> _stopCount;
 };
 
 /*=====================================
diff --git a/MQTTSNGateway/src/MQTTSNGateway.h b/MQTTSNGateway/src/MQTTSNGateway.h
index d4836ae..63e9da6 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.h
+++ b/MQTTSNGateway/src/MQTTSNGateway.h
@@ -214,7 +214,7 @@ private:
     SensorNetwork _sensorNetwork;
 	AdapterManager* _adapterManager;
     Topics* _topics;
-    bool _stopFlg;
+    std::atomic<bool> _stopFlg;
 };
 }
 
diff --git a/MQTTSNGateway/src/linux/Timer.h b/MQTTSNGateway/src/linux/Timer.h
index 7935f4f..846fe70 100644
--- a/MQTTSNGateway/src/linux/Timer.h
+++ b/MQTTSNGateway/src/linux/Timer.h
@@ -16,6 +16,7 @@
 #ifndef MQTTSNGATEWAY_SRC_LINUX_TIMER_H_
 #define MQTTSNGATEWAY_SRC_LINUX_TIMER_H_
 
+#include <atomic>
 #include <stdint.h>
 #include <sys/time.h>
 #include "MQTTSNGWDefines.h"
@@ -65,7 +66,7 @@ private:
 	void init();
 	int  lit(int gpioNo, const char* onoff);
 	void pinMode(int gpioNo);
-	bool _greenStatus;
+	std::atomic<bool> _greenStatus;
 	int _gpio[MAX_GPIO + 1];
 };
 
-- 
2.43.0


From 2aa37e7fdb843a1da5914baaf8a101edce33ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:27 +0000
Subject: [PATCH 73/80] fix: the list of clients was read while a client was
 added to it

---
 MQTTSNGateway/src/MQTTSNGWClient.h       |  2 +-
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 17 ++++++-----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index 902acbf..e50e9fc 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -312,7 +312,7 @@ private:
     bool _sessionStatus;
     bool _hasPredefTopic;
 
-    Client* _nextClient;
+    std::atomic<Client*> _nextClient;
     Client* _prevClient;
 };
 
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 836c808..97612f9 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -303,21 +303,16 @@ Client* ClientList::getClient(SensorNetAddress* addr)
 
 Client* ClientList::getClient(int index)
 {
+    _mutex.lock();
     Client* client = _firstClient;
     int p = 0;
-    while (client != nullptr)
+    while (client != nullptr && p != index)
     {
-        if (p == index)
-        {
-            return client;
-        }
-        else
-        {
-            client = client->_nextClient;
-            p++;
-        }
+        client = client->_nextClient;
+        p++;
     }
-    return nullptr;
+    _mutex.unlock();
+    return client;
 }
 
 Client* ClientList::getClient(MQTTSNString* clientId)
-- 
2.43.0


From 64a878a2da2755ed7a856f5d112582aec455c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:37 +0000
Subject: [PATCH 74/80] fix: the address and the forwarder of a client were
 changed while other threads used them

---
 MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp |  4 +++-
 MQTTSNGateway/src/MQTTSNGWClient.cpp         | 12 ++++++++++++
 MQTTSNGateway/src/MQTTSNGWClient.h           |  6 ++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
index 878b808..71c0586 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
@@ -158,7 +158,9 @@ int AdapterManager::unicastToClient(Client* client, MQTTSNPacket* packet, Client
         }
         else
         {
-            rc = packet->unicast(_gateway->getSensorNetwork(), client->getSensorNetAddress());
+            SensorNetAddress addr;
+            client->getSensorNetAddress(&addr);
+            rc = packet->unicast(_gateway->getSensorNetwork(), &addr);
         }
     }
     return rc;
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 58440ff..9464e2c 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -416,7 +416,19 @@ Network* Client::getNetwork(void)
 
 void Client::setClientAddress(SensorNetAddress* sensorNetAddr)
 {
+    _addressMutex.lock();
     _sensorNetAddr = *sensorNetAddr;
+    _addressMutex.unlock();
+}
+
+/**
+ *  For other threads than the one which sets the address.
+ */
+void Client::getSensorNetAddress(SensorNetAddress* sensorNetAddr)
+{
+    _addressMutex.lock();
+    *sensorNetAddr = _sensorNetAddr;
+    _addressMutex.unlock();
 }
 
 SensorNetAddress* Client::getSensorNetAddress(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWClient.h b/MQTTSNGateway/src/MQTTSNGWClient.h
index e50e9fc..b584630 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.h
+++ b/MQTTSNGateway/src/MQTTSNGWClient.h
@@ -224,6 +224,7 @@ public:
     void setKeepAlive(MQTTSNPacket* packet);
 
     SensorNetAddress* getSensorNetAddress(void);
+    void getSensorNetAddress(SensorNetAddress* sensorNetAddr);
     Network* getNetwork(void);
     void setClientAddress(SensorNetAddress* sensorNetAddr);
     void setSensorNetType(bool stable);
@@ -293,6 +294,7 @@ private:
     Timer _keepAliveTimer;
     uint32_t _keepAliveMsec;
 
+    Mutex _addressMutex;
     Mutex _statusMutex;
     std::atomic<ClientStatus> _status;
     std::atomic<bool> _waitWillMsgFlg;
@@ -306,8 +308,8 @@ private:
     bool _sensorNetype;     // false: unstable network like a G3
     SensorNetAddress _sensorNetAddr;
 
-    Forwarder* _forwarder;
-    ClientType _clientType;
+    std::atomic<Forwarder*> _forwarder;
+    std::atomic<ClientType> _clientType;
 
     bool _sessionStatus;
     bool _hasPredefTopic;
-- 
2.43.0


From 5729e5ef4ae318f10f0a209f6d45a743ac228816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:32 +0000
Subject: [PATCH 75/80] fix: a broker that stops answering or reading no longer
 blocks the gateway for good

connect(), the TLS handshake and send() waited for the broker without limit, so that
no other client was served and SIGINT couldn't end the gateway.
---
 MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp | 13 +++++++++--
 MQTTSNGateway/src/linux/Network.cpp          | 23 +++++++++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
index 2d0eacd..88334c9 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerSendTask.cpp
@@ -63,6 +63,7 @@ void BrokerSendTask::run()
     Client* client = nullptr;
     AdapterManager* adpMgr = _gateway->getAdapterManager();
     int rc = 0;
+    bool givenUp = false;    // the gateway stops and the broker doesn't take packets anymore
 
     while (true)
     {
@@ -77,6 +78,12 @@ void BrokerSendTask::run()
 
         if (ev->getEventType() == EtBrokerSend)
         {
+            if (givenUp)
+            {
+                delete ev;
+                continue;
+            }
+
             client = ev->getClient();
             packet = ev->getMQTTGWPacket();
 
@@ -88,9 +95,10 @@ void BrokerSendTask::run()
                 client->getNetwork()->close();
             }
 
-            if (!client->getNetwork()->isValid() && packet->getType() != CONNECT)
+            if (!client->getNetwork()->isValid() && (packet->getType() != CONNECT || CHK_SIGINT))
             {
-                /* the connection was lost. Only CONNECT can be the first packet of a new one */
+                /* the connection was lost. Only CONNECT can be the first packet of a new one,
+                 * and no connection is opened anymore when the gateway stops */
                 disconnect(client, packet);
                 delete ev;
                 continue;
@@ -146,6 +154,7 @@ void BrokerSendTask::run()
 
                 /* Disconnect the client */
                 disconnect(client, packet);
+                givenUp = CHK_SIGINT;
             }
 
             _light->blueLight(false);
diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 61f4483..87cf379 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -32,6 +32,7 @@ using namespace std;
 using namespace MQTTSNGW;
 
 #define SOCKET_MAXCONNECTIONS  5
+#define BROKER_TIMEOUT         5  // seconds to wait for a broker that doesn't answer or read
 char* currentDateTime();
 
 /*========================================
@@ -148,10 +149,11 @@ bool TCPStack::accept(TCPStack& new_socket)
 int TCPStack::send(const uint8_t* buf, int length)
 {
 #ifdef __APPLE__
-	return ::send(_sockfd, buf, length, SO_NOSIGPIPE);
+	int rc = ::send(_sockfd, buf, length, SO_NOSIGPIPE);
 #else
-	return ::send(_sockfd, buf, length, MSG_NOSIGNAL);
+	int rc = ::send(_sockfd, buf, length, MSG_NOSIGNAL);
 #endif
+	return rc < length ? -1 : rc;    // nothing can follow a packet cut by the timeout
 }
 
 /**
@@ -209,6 +211,15 @@ bool TCPStack::connect(const char* host, const char* service)
 		return false;
 	}
 
+	/* connect(), send() and the TLS handshake don't wait forever */
+	struct timeval timeout = { BROKER_TIMEOUT, 0 };
+	if (setsockopt(sockfd, SOL_SOCKET, SO_SNDTIMEO, (const char*) &timeout, sizeof(timeout)) == -1
+			|| setsockopt(sockfd, SOL_SOCKET, SO_RCVTIMEO, (const char*) &timeout, sizeof(timeout)) == -1)
+	{
+		::close(sockfd);
+		return false;
+	}
+
 	if (::connect(sockfd, _addrinfo->ai_addr, _addrinfo->ai_addrlen) < 0)
 	{
 		DEBUGLOG("Can not connect the socket. Check the PortNo! \n");
@@ -464,6 +475,7 @@ int Network::send(const uint8_t* buf, uint16_t length)
 	fd_set rset;
 	fd_set wset;
 	int bpos = 0;
+	int waits = 0;
 
 	if (!_secureFlg)
 	{
@@ -490,6 +502,7 @@ int Network::send(const uint8_t* buf, uint16_t length)
 		case SSL_ERROR_NONE:
 			length -= r;
 			bpos += r;
+			waits = 0;
 			if (length == 0)
 			{
 				return bpos;
@@ -509,7 +522,11 @@ int Network::send(const uint8_t* buf, uint16_t length)
 		FD_ZERO(&rset);
 		FD_ZERO(&wset);
 		FD_SET(sock, err == SSL_ERROR_WANT_WRITE ? &wset : &rset);
-		select(sock + 1, &rset, &wset, 0, &timeout);
+		if (select(sock + 1, &rset, &wset, 0, &timeout) == 0 && ++waits >= BROKER_TIMEOUT)
+		{
+			WRITELOG("TLSStack::send() timeout\n");
+			return -1;
+		}
 	}
 }
 
-- 
2.43.0


From 8cfdff52418575ec2136981ed2e668f45cb37413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:31 +0000
Subject: [PATCH 76/80] fix: RFCOMM packets are read whole and with the address
 of their sender

The address of the device that connected last was taken for the sender of every packet,
a packet was overwritten by one of another port, packets joined or split by the stream
were lost and a device that had disconnected was read for ever.
---
 .../src/linux/rfcomm/SensorNetwork.cpp        | 74 ++++++++++++++++---
 .../src/linux/rfcomm/SensorNetwork.h          |  4 +
 2 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index e8d6bcd..81f48a5 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -148,7 +148,7 @@ char* SensorNetAddress::sprint(char* buf)
 
 SensorNetwork::SensorNetwork()
 {
-
+    _nextPort = 0;
 }
 
 SensorNetwork::~SensorNetwork()
@@ -220,13 +220,21 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
     int rc = 0;
     if (select(maxSock + 1, &recvfds, 0, 0, &timeout) > 0)
     {
-        for (int i = 0; i < MAX_RFCOMM_CH; i++)
+        /* one packet at a time, the ports take turns */
+        for (int n = 0; n < MAX_RFCOMM_CH; n++)
         {
+            int i = (_nextPort + n) % MAX_RFCOMM_CH;
             if (_rfPorts[i]._rfCommSock > 0)
             {
                 if (FD_ISSET(_rfPorts[i]._rfCommSock, &recvfds))
                 {
                     rc = _rfPorts[i].recv(buf, bufLen);
+                    if (rc > 0)
+                    {
+                        _senderAddr = _rfPorts[i]._devAddr;
+                        _nextPort = i + 1;
+                        return rc;
+                    }
                     if (rc == -1)
                     {
                         _rfPorts[i].close();
@@ -237,16 +245,17 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
             {
                 if (FD_ISSET(_rfPorts[i]._listenSock, &recvfds))
                 {
-                    int sock = _rfPorts[i].accept(&_senderAddr);
+                    int sock = _rfPorts[i].accept(&_rfPorts[i]._devAddr);
                     if (sock > 0)
                     {
                         _rfPorts[i]._rfCommSock = sock;
+                        _rfPorts[i]._length = 0;
                     }
                 }
             }
         }
     }
-    return rc;
+    return 0;
 }
 
 /**
@@ -317,6 +326,7 @@ RfcommPort::RfcommPort()
     _rfCommSock = 0;
     _listenSock = 0;
     _channel = 0;
+    _length = 0;
 }
 
 RfcommPort::~RfcommPort()
@@ -383,18 +393,62 @@ int RfcommPort::send(const uint8_t* buf, uint32_t length)
     return ::send(_rfCommSock, buf, length, 0);
 }
 
+/**
+ *  Receive a packet from the stream. It is not read further than to the end of the packet.
+ *  @return length of the packet, 0 when it is not complete yet or doesn't fit, -1 when the connection has ended
+ */
 int RfcommPort::recv(uint8_t* buf, uint16_t len)
 {
-    int rc = 0;
+    uint8_t rest[256];    // octets of a packet too long
     errno = 0;
 
-    rc = ::read(_rfCommSock, buf, len);
-    if (rc < 0 && errno != EAGAIN)
+    while (true)
     {
-        D_NWSTACK("errno = %d in BlePort::recv\n", errno);
-        return -1;
+        uint16_t want = 1;
+        if (_length > 0)
+        {
+            want = _packet[0];
+            if (want == 1)
+            {
+                want = _length < 3 ? 3 : _packet[1] << 8 | _packet[2];
+            }
+            if (want < 2 || (_length >= 3 && want < _length))
+            {
+                return -1;    // not the length of a packet. The next one can't be found
+            }
+            if (_length == want)
+            {
+                _length = 0;
+                if (want > len || want > sizeof(_packet))
+                {
+                    return 0;
+                }
+                memcpy(buf, _packet, want);
+                return want;
+            }
+        }
+
+        uint8_t* ptr = rest;
+        int size = want - _length;
+        int room = sizeof(rest);
+        if (_length < sizeof(_packet))
+        {
+            ptr = _packet + _length;
+            room = sizeof(_packet) - _length;
+        }
+
+        int rc = ::recv(_rfCommSock, ptr, size < room ? size : room, MSG_DONTWAIT);
+        if (rc < 0 && (errno == EAGAIN || errno == EINTR))
+        {
+            return 0;
+        }
+        if (rc <= 0)
+        {
+            D_NWSTACK("errno = %d in BlePort::recv\n", errno);
+            return -1;
+        }
+        _length += rc;
     }
-    return rc;
 }
 
 int RfcommPort::accept(SensorNetAddress* addr)
diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
index 2aef9f8..8d16258 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
@@ -69,6 +69,9 @@ private:
     int _listenSock;
     uint16_t _channel;
 	bool _disconReq;
+    SensorNetAddress _devAddr;                       // the connected device
+    uint8_t _packet[MQTTSNGW_MAX_PACKET_SIZE];       // a packet that isn't complete
+    uint16_t _length;                                // octets of it received
 };
 
 /*===========================================
@@ -90,6 +93,7 @@ public:
 private:
     // sockets for RFCOMM
     RfcommPort _rfPorts[MAX_RFCOMM_CH];
+    int _nextPort;
 	SensorNetAddress _senderAddr;
 	string _description;
 };
-- 
2.43.0


From 972f996ab880e2bc92193f7e237c9c29f8207d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:31 +0000
Subject: [PATCH 77/80] fix: a packet for an RFCOMM device is sent to that
 device only, or not at all

The channel was not checked, the device of a channel was not either, packets could follow
one cut off, and the socket could be closed by another thread meanwhile.
---
 .../src/linux/rfcomm/SensorNetwork.cpp        | 58 ++++++++++++++-----
 .../src/linux/rfcomm/SensorNetwork.h          |  6 +-
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index 81f48a5..5b973ea 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -44,6 +44,8 @@ using namespace MQTTSNGW;
  * setAddress(uint32_t BtAddr, uint16_t channel)
 
  ============================================*/
+#define SEND_TIMEOUT  5  // seconds
+
 bdaddr_t NullAddr = { 0, 0, 0, 0, 0, 0 };
 
 SensorNetAddress::SensorNetAddress()
@@ -158,11 +160,17 @@ SensorNetwork::~SensorNetwork()
 int SensorNetwork::unicast(const uint8_t* payload, uint16_t payloadLength, SensorNetAddress* sendToAddr)
 {
     uint16_t ch = sendToAddr->getPortNo();
-    RfcommPort* blep = &_rfPorts[ch - 1];
     int rc = 0;
     errno = 0;
 
-    if ((rc = blep->send(payload, (uint32_t) payloadLength)) < 0)
+    if (ch < 1 || ch > MAX_RFCOMM_CH)
+    {
+        D_NWSTACK("error Channel %d in SensorNetwork::unicast\n", ch);
+        return -1;
+    }
+    RfcommPort* blep = &_rfPorts[ch - 1];
+
+    if ((rc = blep->send(payload, (uint32_t) payloadLength, sendToAddr)) < 0)
     {
         D_NWSTACK("errno == %d in BlePort::sendto %d\n", errno, ch);
     } D_NWSTACK("sendto %u length = %d\n", ch, rc);
@@ -245,12 +253,7 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
             {
                 if (FD_ISSET(_rfPorts[i]._listenSock, &recvfds))
                 {
-                    int sock = _rfPorts[i].accept(&_rfPorts[i]._devAddr);
-                    if (sock > 0)
-                    {
-                        _rfPorts[i]._rfCommSock = sock;
-                        _rfPorts[i]._length = 0;
-                    }
+                    _rfPorts[i].accept();
                 }
             }
         }
@@ -341,11 +344,13 @@ RfcommPort::~RfcommPort()
 
 void RfcommPort::close(void)
 {
+    _mutex.lock();
     if (_rfCommSock > 0)
     {
         ::close(_rfCommSock);
         _rfCommSock = 0;
     }
+    _mutex.unlock();
 }
 
 int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
@@ -388,9 +393,26 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
     return 1;
 }
 
-int RfcommPort::send(const uint8_t* buf, uint32_t length)
+/**
+ *  Send to the connected device
+ *  @param sendto  nothing is sent when another device is connected
+ */
+int RfcommPort::send(const uint8_t* buf, uint32_t length, SensorNetAddress* sendto)
 {
-    return ::send(_rfCommSock, buf, length, 0);
+    int rc = -1;
+    _mutex.lock();
+    if (_rfCommSock > 0 && (sendto == nullptr || _devAddr.isMatch(sendto)))
+    {
+        rc = ::send(_rfCommSock, buf, length, MSG_NOSIGNAL);
+        if (rc != (int) length)
+        {
+            /* the device can't find the next packet */
+            ::shutdown(_rfCommSock, SHUT_RDWR);
+            rc = -1;
+        }
+    }
+    _mutex.unlock();
+    return rc;
 }
 
 /**
@@ -451,7 +473,7 @@ int RfcommPort::recv(uint8_t* buf, uint16_t len)
     }
 }
 
-int RfcommPort::accept(SensorNetAddress* addr)
+int RfcommPort::accept(void)
 {
     struct sockaddr_rc devAddr = { 0 };
     socklen_t opt = sizeof(devAddr);
@@ -465,8 +487,18 @@ int RfcommPort::accept(SensorNetAddress* addr)
         D_NWSTACK("errno == %d in BlePort::recv\n", errno);
         return -1;
     }
-    bdaddr_t bdAddr = devAddr.rc_bdaddr;
-    addr->setAddress(bdAddr, _channel);
+    if (sock > 0)
+    {
+        /* a device that doesn't read doesn't stop the others */
+        struct timeval timeout = { SEND_TIMEOUT, 0 };
+        setsockopt(sock, SOL_SOCKET, SO_SNDTIMEO, &timeout, sizeof(timeout));
+
+        _mutex.lock();
+        _devAddr.setAddress(devAddr.rc_bdaddr, _channel);
+        _rfCommSock = sock;
+        _length = 0;
+        _mutex.unlock();
+    }
     return sock;
 }
 
diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
index 8d16258..1fba88a 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
@@ -18,6 +18,7 @@
 #define SENSORNETWORK_H_
 
 #include "MQTTSNGWDefines.h"
+#include "Threading.h"
 #include <string>
 #include <bluetooth/bluetooth.h>
 
@@ -60,10 +61,10 @@ public:
 
     int open(bdaddr_t* devAddress, uint16_t channel);
 	void close(void);
-    int send(const uint8_t* buf, uint32_t length);
+    int send(const uint8_t* buf, uint32_t length, SensorNetAddress* sendto = nullptr);
     int recv(uint8_t* buf, uint16_t len);
     int getSock(void);
-    int accept(SensorNetAddress* addr);
+    int accept(void);
 private:
 	int _rfCommSock;
     int _listenSock;
@@ -72,6 +73,7 @@ private:
     SensorNetAddress _devAddr;                       // the connected device
     uint8_t _packet[MQTTSNGW_MAX_PACKET_SIZE];       // a packet that isn't complete
     uint16_t _length;                                // octets of it received
+    Mutex _mutex;                                    // packets are sent and received by different threads
 };
 
 /*===========================================
-- 
2.43.0


From 63519715aa8e3642c37b29ac9f7aee7c91c5abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:31 +0000
Subject: [PATCH 78/80] fix: RFCOMM channels that can't be opened are noticed

They remained in the set of sockets, with a number that had been closed, the gateway
started without any channel and addresses with channels that don't exist were accepted.
---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index 5b973ea..ce4515c 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -110,7 +110,7 @@ int SensorNetAddress::setAddress(string* dev_channel)
     }
     str2ba(dvAddr.c_str(), &_bdAddr);
 
-    if ((_channel < 0 && _channel > 30) || bacmp(&_bdAddr, &NullAddr) == 0)
+    if (_channel > MAX_RFCOMM_CH || bacmp(&_bdAddr, &NullAddr) == 0)
     {
         return rc;
     }
@@ -297,7 +297,7 @@ void SensorNetwork::initialize(void)
 
     /*  Prepare BLE sockets */
     WRITELOG("Initialize RFCOMM\n");
-    int rc = MAX_RFCOMM_CH;
+    int rc = 0;
     for (uint16_t i = 0; i < MAX_RFCOMM_CH; i++)
     {
 
@@ -369,6 +369,7 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
     if (_listenSock < 0)
     {
         D_NWSTACK("error can't create Rfcomm socket in BlePort::open\n");
+        _listenSock = 0;
         return 0;
     }
 
@@ -385,6 +386,7 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
     {
         WRITELOG("\033[0m\033[0;31mCan't bind RFCOMM CH = %d  %s\033[0m\033[0;37m\n", channel, strerror(errno));
         ::close(_listenSock);
+        _listenSock = 0;
         return 0;
     }
     _channel = channel;
-- 
2.43.0


From 452e61da38dec1bfd819e3eccea64819e6ed0faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:03 +0000
Subject: [PATCH 79/80] fix: the rest of a long comment in the clients or
 predefined topics file is not an entry

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 34 ++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 97612f9..38adb1a 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -41,6 +41,26 @@ static void eraseSpaces(string& data)
     }
 }
 
+/**
+ * Read a line of any length
+ * @return false: end of the file
+ */
+static bool readLine(FILE* fp, string& line)
+{
+    char buf[256];
+
+    line.clear();
+    while (fgets(buf, sizeof(buf), fp) != 0)
+    {
+        line += buf;
+        if (strchr(buf, '\n') != nullptr)
+        {
+            return true;
+        }
+    }
+    return !line.empty();
+}
+
 ClientList::ClientList(Gateway* gw)
 {
     _clientCnt = 0;
@@ -133,7 +153,7 @@ void ClientList::setPredefinedTopics(bool aggrecate)
 bool ClientList::createList(const char* fileName, int type)
 {
     FILE* fp;
-    char buf[MAX_CLIENTID_LENGTH + 256];
+    string data;
     size_t pos;
     bool secure;
     bool stable;
@@ -145,13 +165,12 @@ bool ClientList::createList(const char* fileName, int type)
 
     if ((fp = fopen(fileName, "r")) != 0)
     {
-        while (fgets(buf, MAX_CLIENTID_LENGTH + 254, fp) != 0)
+        while (readLine(fp, data))
         {
-            if (*buf == '#')
+            if (data[0] == '#')
             {
                 continue;
             }
-            string data = string(buf);
             eraseSpaces(data);
             if (data.empty())
             {
@@ -197,7 +216,7 @@ bool ClientList::createList(const char* fileName, int type)
 bool ClientList::readPredefinedList(const char* fileName, bool aggregate)
 {
     FILE* fp;
-    char buf[MAX_CLIENTID_LENGTH + 256];
+    string data;
     size_t pos0, pos1;
     MQTTSNString clientId = MQTTSNString_initializer;
     ;
@@ -205,13 +224,12 @@ bool ClientList::readPredefinedList(const char* fileName, bool aggregate)
 
     if ((fp = fopen(fileName, "r")) != 0)
     {
-        while (fgets(buf, MAX_CLIENTID_LENGTH + 254, fp) != 0)
+        while (readLine(fp, data))
         {
-            if (*buf == '#')
+            if (data[0] == '#')
             {
                 continue;
             }
-            string data = string(buf);
             eraseSpaces(data);
             if (data.empty())
             {
-- 
2.43.0


From 27d1c204ad9b3ca8150b1f442e322e598621ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:03 +0000
Subject: [PATCH 80/80] fix: an address with a port number out of range is not
 valid

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp  | 5 +++--
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index e855619..f45632f 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -106,9 +106,10 @@ int SensorNetAddress::setAddress(string* ip_port)
 
 	string ip = ip_port->substr(0, pos);
 	string port = ip_port->substr(pos + 1);
-	int portNo = 0;
+	long portNo = 0;
 
-	if ((portNo = atoi(port.c_str())) == 0 || (_IpAddr = inet_addr(ip.c_str())) == INADDR_NONE)
+	portNo = strtol(port.c_str(), nullptr, 10);
+	if (portNo < 1 || portNo > 65535 || (_IpAddr = inet_addr(ip.c_str())) == INADDR_NONE)
 	{
 		return -1;
 	}
diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 21a408d..c7a7bc5 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -75,10 +75,10 @@ int SensorNetAddress::setAddress(string* data)
 
     if (pos != string::npos)
     {
-        int portNo = 0;
+        long portNo = 0;
         string port = data->substr(pos + 1);
 
-        if ((portNo = atoi(port.c_str())) > 0)
+        if ((portNo = strtol(port.c_str(), nullptr, 10)) > 0 && portNo <= 65535)
         {
             _IpAddr.sin6_port = htons(portNo);
             _IpAddr.sin6_family = AF_INET6;
-- 
2.43.0

