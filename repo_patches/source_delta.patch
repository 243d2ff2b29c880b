From 22ed7adb3e61fa8910269a9af340c07a49fb8a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 01/41] fix: emit the concatenation header as octets for every
 alphabet

8-bit multipart messages lost their user data header and declared a wrong
length, and UCS2 messages with many parts could not be encoded.
---
 messaging/sms/submit.py | 12 +++---------
 messaging/utils.py      | 20 ++++++--------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..819c233 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -309,15 +309,9 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
-            if limit == consts.SEVENBIT_SIZE:
-                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
-                       chr(sms_ref) + chr(total_parts) + chr(i))
-                padding = " "
-            else:
-                udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
-                       unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
-                       unichr(int("%04x" % ((total_parts << 8) | i), 16)))
-                padding = ""
+            udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                   chr(sms_ref) + chr(total_parts) + chr(i))
+            padding = " " if limit == consts.SEVENBIT_SIZE else ""
 
             pdu_msgs.append(packing_func(padding + msg, udh))
 
diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..b4e0fc8 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -145,27 +145,19 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
-    text = message
-    if udh is not None:
-        text = udh + text
-
-    mlen = len(text)
-    message = chr(mlen) + message
-    return encode_str(message)
+    header = '' if udh is None else udh
+    mlen = len(header) + len(message)
+    return encode_str(chr(mlen)) + encode_str(header) + encode_str(message)
 
 
 def pack_8bits_to_ucs2(message, udh=None):
     # XXX: This does not control the size respect to UDH
-    text = message
-    nmesg = ''
-
-    if udh is not None:
-        text = udh + text
+    nmesg = '' if udh is None else udh
 
-    for n in text:
+    for n in message:
         nmesg += chr(ord(n) >> 8) + chr(ord(n) & 0xFF)
 
-    mlen = len(text) * 2
+    mlen = len(nmesg)
     message = chr(mlen) + nmesg
     return encode_str(message)
 
-- 
2.43.0


From f9539a6bc1a0765c7784ef7d2edb5feebd7f7c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 02/41] fix: encode WSP long integers most significant octet
 first

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..3f7e1a0 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1528,7 +1528,7 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From 3e5b973e8e5790e7ad00b6edb3fcd6342f7cfd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 03/41] fix: a version value with minor 15 has no minor version

---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 3f7e1a0..b9ba98c 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1138,6 +1138,10 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 15:
+                # only the major version is present
+                return '%d' % major
+
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
-- 
2.43.0


From 37ffa2858fcd3361b83ecf5d5822a99182c834fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 04/41] fix: negative offsets in FixedOffset.from_timezone

'-0300' was turned into an offset of minus twenty-one hours.
---
 messaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index b4e0fc8..9368038 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = -timedelta(minutes=minutes)
 
         return cls(td, name)
 
@@ -248,7 +248,7 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    s = "%02d" % int(floor(abs(offset).seconds / (60 * 15)))
 
     if offset.days < 0:
         # set MSB to 1
-- 
2.43.0


From 714a23505d3fc38faacbcf01790592d079502d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 05/41] fix: decode an empty encoded string value

An empty text string starts with the same octet as a zero value length; the
octets that follow belong to the next header.
---
 messaging/mms/mms_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..f0e2b05 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -313,6 +313,10 @@ class MMSDecoder(wsp_pdu.Decoder):
         try:
             # First try "Value-length Char-set Text-string"
             value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
+            if value_length == 0:
+                # an empty Text-string
+                return ''
+
             # TODO: add proper support for charsets...
             try:
                 charset = wsp_pdu.Decoder.decode_well_known_charset(byte_iter)
-- 
2.43.0


From 757beda1de2b0826753333cd9b7de5a0eba22344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 06/41] fix: encode the data parts that are not attached to a
 page

They were counted in the number of body entries, but never written.
---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index f0e2b05..3d611e4 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -781,6 +781,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From 148ad70bfff2fd2759b497775af65faec9d61df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 07/41] fix: encode content types that have parameters as a
 flat octet sequence

---
 messaging/mms/wsp_pdu.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index b9ba98c..7071c60 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1617,7 +1617,7 @@ class Encoder:
         else:
             val = Encoder.encode_text_string(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
@@ -1956,8 +1956,10 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From f48d6e44da5d1c1b1ec787c6d6412c3be5a0af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 08/41] fix: do not modify the headers of the message being
 encoded

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 3d611e4..e6a81bc 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -631,7 +631,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        headers_to_encode = self._mms_message.headers.copy()
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From b5bcfcacb9ad22a8e89c19246df3f16fc2895f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 09/41] fix: a Bcc header is a destination address

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index e6a81bc..0f09ac1 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -666,7 +666,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From af720401381b51c22015016361dd5efca9d75ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 10/41] fix: consume and name enumerated MMS values that are
 not known

---
 messaging/mms/mms_pdu.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 0f09ac1..b003146 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -451,7 +451,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             byte_iter.next()
             return message_types[byte]
 
-        byte_iter.reset_preview()
+        byte_iter.next()
         return '<unknown>'
 
     @staticmethod
@@ -535,7 +535,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         byte = byte_iter.preview()
         byte_iter.next()
         # Return error unspecified if it couldn't be decoded
-        return response_status_values.get(byte, 0x81)
+        return response_status_values.get(byte, 'Error-unspecified')
 
     @staticmethod
     def decode_status_value(byte_iter):
@@ -561,7 +561,7 @@ class MMSDecoder(wsp_pdu.Decoder):
 
         byte = byte_iter.next()
         # Return an unrecognised state if it couldn't be decoded
-        return status_values.get(byte, 0x84)
+        return status_values.get(byte, 'Unrecognised')
 
     @staticmethod
     def decode_expiry_value(byte_iter):
@@ -999,4 +999,4 @@ class MMSEncoder(wsp_pdu.Encoder):
         }
 
         # Return an unrecognised state if it couldn't be decoded
-        return [status_values.get(status_value, 'Unrecognised')]
+        return [status_values.get(status_value, 0x84)]
-- 
2.43.0


From c92017d50c616894a9c18b3aeb04d4a03260c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 11/41] fix: decode the headers of a body part as WSP headers

---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index b003146..38758b1 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,7 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From eeb7ecad404a2c03d52c0b9b8083dd812c00725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 12/41] fix: SMIL audio without text, and media shown until the
 end of the slide

---
 messaging/mms/message.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..4a2b5cf 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -160,10 +160,10 @@ class MMSMessage:
                 image_node.setAttribute('src', src)
                 image_node.setAttribute('region', 'Image')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    image_node.setAttribute('begin', str(begin))
+                    image_node.setAttribute('begin', str(max(begin, 0)))
                     image_node.setAttribute('end', str(end))
 
                 par_node.appendChild(image_node)
@@ -175,10 +175,10 @@ class MMSMessage:
                 text_node.setAttribute('src', src)
                 text_node.setAttribute('region', 'Text')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    text_node.setAttribute('begin', str(begin))
+                    text_node.setAttribute('begin', str(max(begin, 0)))
                     text_node.setAttribute('end', str(end))
 
                 par_node.appendChild(text_node)
@@ -195,13 +195,12 @@ class MMSMessage:
                 audio_node = smil_doc.createElement('audio')
                 audio_node.setAttribute('src', src)
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    audio_node.setAttribute('begin', str(begin))
+                    audio_node.setAttribute('begin', str(max(begin, 0)))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From 1ed75813b885c931c992336f839a329d218a88dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 13/41] fix: MMSMessage.data_parts of a message that has pages

---
 messaging/mms/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 4a2b5cf..f53ca5f 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -98,8 +98,8 @@ class MMSMessage:
         parts = []
         if len(self._pages):
             parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            for slide in self._pages:
+                parts.extend([part for part, _, _ in slide.data_parts])
 
         parts.extend(self._data_parts)
         return parts
-- 
2.43.0


From b1517b96209001b6993eb4a9fb10284d9a34c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 14/41] fix: length of alphanumeric senders

The address length says how many septets are used: seven characters came
with a trailing '@' that was only padding.
---
 messaging/sms/deliver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..d4b93b6 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -99,6 +99,7 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        septets = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -106,7 +107,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:septets].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From 2b491fc2806fb4a0147ca1c2dff3577cc115bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 15/41] fix: decode_uint_8 returns all eight bits

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7071c60..4324821 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -331,7 +331,7 @@ class Decoder:
         :rtype: int
         """
         # Make the byte unsigned
-        return byte_iter.next() & 0xf
+        return byte_iter.next() & 0xff
 
     @staticmethod
     def decode_uint_var(byte_iter):
-- 
2.43.0


From bebd3a2cc1240a4c3612aab82940d1e3c841b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 16/41] fix: untyped text parameters are token text, quoted
 strings or no value

---
 messaging/mms/wsp_pdu.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 4324821..c51673f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1169,12 +1169,14 @@ class Decoder:
         :rtype: str
         """
         try:
-            return Decoder.decode_token_text(byte_iter)
+            # a quote could also be read as the start of a token
+            return Decoder.decode_quoted_string(byte_iter)
         except DecodeError:
             try:
-                return Decoder.decode_quoted_string(byte_iter)
+                return Decoder.decode_token_text(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
+                Decoder.decode_no_value(byte_iter)
                 return ''
 
     @staticmethod
@@ -1190,8 +1192,9 @@ class Decoder:
         :return: No-value, which is 0x00
         :rtype: int
         """
-        byte_iter, local_iter = byte_iter.next()
-        if local_iter.next() != 0x00:
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte != 0x00:
             raise DecodeError('Expected No-value')
 
         byte_iter.next()
@@ -1685,7 +1688,7 @@ class Encoder:
             try:
                 value = Encoder.encode_integer_value(parameter_value)
             except EncodeError:
-                value = Encoder.encode_text_string(parameter_value)
+                value = Encoder.encode_text_value(parameter_value)
 
             encoded_parameter.extend(value)
 
@@ -1743,8 +1746,23 @@ class Encoder:
 
     @staticmethod
     def encode_text_value(text):
-        """Stub for encoding Text-values; see :func:`encode_text_string`"""
-        return Encoder.encode_text_string(text)
+        """
+        Encodes a Text-value ``text``
+
+        From [5], section 8.4.2.3::
+
+            Text-value = No-value | Token-text | Quoted-string
+        """
+        if not text:
+            return Encoder.encode_no_value()
+
+        try:
+            if '"' in text:
+                raise EncodeError('A token cannot have quotes')
+
+            return Encoder.encode_token_text(text)
+        except EncodeError:
+            return [34] + Encoder.encode_text_string(text)
 
     @staticmethod
     def encode_no_value(value=None):
-- 
2.43.0


From 4e65d9c7d2c94264c9292865d8bc426c144e3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 17/41] fix: the length of the WAP push headers is a variable
 length integer

---
 messaging/sms/wap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/sms/wap.py b/messaging/sms/wap.py
index 46611ab..b924c9d 100644
--- a/messaging/sms/wap.py
+++ b/messaging/sms/wap.py
@@ -2,6 +2,7 @@
 
 from array import array
 
+from messaging.mms.iterator import PreviewIterator
 from messaging.mms.mms_pdu import MMSDecoder
 
 
@@ -20,11 +21,12 @@ def is_a_wap_push_notification(s):
 def extract_push_notification(s):
     data = array("B", s)
 
-    wap_push, offset = data[1:3]
+    wap_push = data[1]
     assert wap_push == 0x06
 
-    offset += 3
-    data = data[offset:]
+    data_iter = PreviewIterator(data[2:])
+    headers_len = MMSDecoder.decode_uint_var(data_iter)
+    data = array("B", data_iter)[headers_len:]
 
     # XXX: Not all WAP pushes are MMS
     return MMSDecoder().decode_data(data)
-- 
2.43.0


From d53714ab898d4517d80b496b81d4b0b91f8f5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 18/41] fix: decode_mms_header leaves its iterator alone when
 it fails

---
 messaging/mms/mms_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 38758b1..76aa468 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -266,6 +266,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         # Get the MMS-field-name
         mms_field_name = ''
         preview = byte_iter.preview()
+        byte_iter.reset_preview()
         byte = wsp_pdu.Decoder.decode_short_integer_from_byte(preview)
 
         if byte in mms_field_names:
-- 
2.43.0


From ddc83207b3aff5b29b415f2de1395f14a4b89ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 19/41] fix: assigning a pdu forgets what the previous one
 decoded to

---
 messaging/sms/deliver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index d4b93b6..362435a 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -62,6 +62,9 @@ class SmsDeliver(SmsBase):
         if len(pdu) % 2:
             raise ValueError("Can not decode an odd-length pdu")
 
+        # forget what a previous PDU might have set
+        self.udh = self.type = self.sr = self.date = None
+
         # XXX: Should we keep the original PDU or the modified one?
         self._pdu = pdu
 
-- 
2.43.0


From dde1fd851b276a2cb7ffc6d267a1d91ce429e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 20/41] fix: a relative delivery time is an integer value

---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 76aa468..cf00b4b 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -362,11 +362,12 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         if token == 128:
             token_type = 'absolute'
+            value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         elif token == 129:
             token_type = 'relative'
+            value = wsp_pdu.Decoder.decode_delta_seconds_value(byte_iter)
         else:
             raise wsp_pdu.DecodeError('Delivery-Time type token value is undefined'
                 ' (%s), should be either 128 or 129' % token)
-- 
2.43.0


From a8ff610d3310034a8e3fb859adec4c6115cc53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 21/41] fix: an 8-bit application port address says so

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From 2f06f790bc8d3d5d413d55f4a7b6a8a250f9bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 22/41] fix: only the declared user data belongs to the message

Octets after the user data of 8-bit and UCS2 messages ended up in the text.
---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 362435a..8700450 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -160,7 +160,9 @@ class SmsDeliver(SmsBase):
     def _process_message(self, data):
         # Now get message body
         msgl = data.pop(0)
-        msg = encode_bytes(data[:msgl])
+        # whatever follows the user data is not part of the message
+        data = data[:msgl]
+        msg = encode_bytes(data)
         # check for header
         headlen = ud_len = 0
 
-- 
2.43.0


From e33b8ebc7d1811c0a0c992f662de80e5dd2740e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 23/41] fix: refuse negative integers instead of encoding them
 as zero

---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index c51673f..d17c277 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1530,6 +1530,9 @@ class Encoder:
         if not isinstance(integer, int):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('<integer> must not be negative: %d' % integer)
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-- 
2.43.0


From 8373de63d57653c2ad4937c15a84ea79200020ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 24/41] fix: escapes matter to message splitting in the 7-bit
 alphabet only

---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 819c233..fda8f43 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -290,7 +290,7 @@ class SmsSubmit(SmsBase):
         pi, pe = 0, len_without_udh
 
         while pi < total_len:
-            if text[pi:pe][-1] == '\x1b':
+            if self.fmt == 0x00 and text[pi:pe][-1] == '\x1b':
                 pe -= 1
 
             msgs.append(text[pi:pe])
-- 
2.43.0


From 476c5969e1cec38bd5f70c850f80a8c4193b3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 25/41] fix: assigning a status report forgets the previous pid
 and dcs

A status report has neither, but an object that had decoded another SMS
before kept reporting the ones of that SMS.
---
 messaging/sms/deliver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 8700450..4f3a652 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -64,6 +64,7 @@ class SmsDeliver(SmsBase):
 
         # forget what a previous PDU might have set
         self.udh = self.type = self.sr = self.date = None
+        self.pid = self.dcs = None
 
         # XXX: Should we keep the original PDU or the modified one?
         self._pdu = pdu
-- 
2.43.0


From 1ddb914cead4611808340326c5dfa0d56ba2b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 26/41] fix: refuse PDU text that is not hexadecimal

int() accepts signs, whitespace around a digit and non ASCII digits, so
such text was decoded as if it were a PDU, or ended in OverflowError.
---
 messaging/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/messaging/utils.py b/messaging/utils.py
index 9368038..8559706 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -1,8 +1,11 @@
 from array import array
 from datetime import timedelta, tzinfo
 from math import floor
+import re
 import sys
 
+HEXADECIMAL = re.compile(r"^[0-9a-fA-F]*\Z")
+
 
 class FixedOffset(tzinfo):
     """Fixed offset in minutes east from UTC."""
@@ -52,6 +55,10 @@ def bytes_to_str(b):
 
 
 def to_array(pdu):
+    # int() would also accept signs, whitespace and non ASCII digits
+    if not HEXADECIMAL.match(pdu):
+        raise ValueError("Invalid hexadecimal text: %r" % pdu)
+
     return array('B', [int(pdu[i:i + 2], 16) for i in range(0, len(pdu), 2)])
 
 
-- 
2.43.0


From eb86db93e6f65019cad7ce1b74b6e4d4635d4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 27/41] fix: refuse to encode text that is not a token

Text with quotes, control or non ASCII characters, or no text at all,
was written where only a token can be read, so that decoding gave
something else. Parameter values of that kind are quoted instead.
---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index d17c277..29073a8 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1717,6 +1717,10 @@ class Encoder:
                 raise EncodeError('Char "%s" in text string; cannot '
                                   'encode as Token-text' % chr(char))
 
+        # neither can quotes, control nor non ASCII characters be in a token
+        if not text or [c for c in text if c == '"' or not 32 < ord(c) < 127]:
+            raise EncodeError('Cannot encode %r as Token-text' % text)
+
         return Encoder.encode_text_string(text)
 
     @staticmethod
-- 
2.43.0


From 0788f568d649512bb9762b81bf780ee97723d2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 28/41] fix: encode versions of three or more components as
 text

---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 29073a8..0d62e34 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1590,6 +1590,9 @@ class Encoder:
 
                 minor = minor_version
                 encoded_version_val = Encoder.encode_short_integer(major | minor)
+            else:
+                raise ValueError('Only "major" or "major.minor" fit in a '
+                                 'short-integer')
         except:
             # The value couldn't be encoded as a short-integer; use
             # a text-string instead
-- 
2.43.0


From 209253bcfe09f10a294ec9d5aee8d1d0552445b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 29/41] fix: read an untyped parameter without a value as empty
 text

---
 messaging/mms/wsp_pdu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 0d62e34..7db9714 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -944,6 +944,12 @@ class Decoder:
         :return: The decoded untyped-value
         :rtype: int or str
         """
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte == 0x00:
+            # a "No-value"; an integer takes at least one octet
+            return Decoder.decode_text_value(byte_iter)
+
         try:
             return Decoder.decode_integer_value(byte_iter)
         except DecodeError:
-- 
2.43.0


From 2d4699e123c6bc9eefd84f5047b7be9aaa896190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 30/41] fix: keep to the length of an Accept value in general
 form

---
 messaging/mms/wsp_pdu.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7db9714..62e5258 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1232,23 +1232,14 @@ class Decoder:
         except DecodeError:
             # ...now try Accept-general-form
             value_length = Decoder.decode_value_length(byte_iter)
-            try:
-                media = Decoder.decode_well_known_media(byte_iter)
-            except DecodeError:
-                media = Decoder.decode_extension_media(byte_iter)
-
-            # Check for the Q-Token (to see if there are Accept-parameters)
-            if byte_iter.preview() == 128:
-                byte_iter.next()
-                q_value = Decoder.decode_q_value(byte_iter)
-                try:
-                    accept_extension = Decoder.decode_parameter(byte_iter)
-                except DecodeError:
-                    # Just set an empty iterable
-                    accept_extension = []
-
-            byte_iter.reset_preview()
-            accept_value = media
+            # Only the first value_length octets belong to this value
+            accept_bytes = array.array('B')
+            for i in xrange(value_length):
+                accept_bytes.append(byte_iter.next())
+
+            # The parameters of the media range are discarded
+            accept_iter = PreviewIterator(accept_bytes)
+            accept_value = Decoder.decode_media_type(accept_iter)
 
         return accept_value
 
-- 
2.43.0


From b83d04bdee1ba457f5a085608c6abdd7a9e8bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 31/41] fix: quote text that starts with an octet above 127

A Text-string whose first octet is in the range 128-255 must be preceded by
a Quote (octet 127); without it a version or a header value such as
'\xe9t\xe9' is read as a short integer.
---
 messaging/mms/wsp_pdu.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 62e5258..5890e19 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1471,6 +1471,10 @@ class Encoder:
         """
         encoded_string = [ord(c) for c in string]
         encoded_string.append(0x00)
+        if encoded_string[0] >= 128:
+            # it must be preceded by a Quote character
+            encoded_string.insert(0, 127)
+
         return encoded_string
 
     @staticmethod
@@ -1769,7 +1773,7 @@ class Encoder:
 
             return Encoder.encode_token_text(text)
         except EncodeError:
-            return [34] + Encoder.encode_text_string(text)
+            return Encoder.encode_text_string('"' + text)
 
     @staticmethod
     def encode_no_value(value=None):
@@ -1960,7 +1964,7 @@ class Encoder:
             raise EncodeError('Invalid Extension-media: TEXT starts with '
                               'invalid character: %s' % ord(char))
 
-        return Encoder.encode_text_string(media_value)
+        return [ord(c) for c in media_value] + [0x00]
 
     @staticmethod
     def encode_content_general_form(media_type, parameters):
-- 
2.43.0


From 2fc814599b4995c30c5a11200894fb59dae63c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 32/41] fix: refuse text that does not fit an 8-bit message

encode_str made two octets of a character above 0xFF, so that the user data
was longer than its declared length.
---
 messaging/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/utils.py b/messaging/utils.py
index 8559706..338f8d5 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -152,6 +152,10 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
+    for n in message:
+        if ord(n) > 0xFF:
+            raise ValueError("Can not encode %r with 8 bits" % n)
+
     header = '' if udh is None else udh
     mlen = len(header) + len(message)
     return encode_str(chr(mlen)) + encode_str(header) + encode_str(message)
-- 
2.43.0


From d57b672898eee25d392a65ac68ee947c93543e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 33/41] fix: alphabet of message waiting indications

In the message waiting groups of the data coding scheme (0xC0-0xEF) bits 2
and 3 are not the alphabet: an active voice mail indication (0xC8) is in the
7-bit alphabet and 0xE0 is UCS2.
---
 messaging/sms/deliver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 4f3a652..cae02c2 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -125,7 +125,13 @@ class SmsDeliver(SmsBase):
         self.pid = data.pop(0)
         # 1 byte TP-DCS (Data Coding Scheme)
         self.dcs = data.pop(0)
-        if self.dcs & (0x04 | 0x08) == 0:
+        if self.dcs >> 4 in (0x0C, 0x0D):
+            # message waiting, its bit 3 is the sense of the indication
+            self.fmt = 0x00
+        elif self.dcs >> 4 == 0x0E:
+            # message waiting, text in UCS2
+            self.fmt = 0x08
+        elif self.dcs & (0x04 | 0x08) == 0:
             self.fmt = 0x00
         elif self.dcs & 0x04:
             self.fmt = 0x04
-- 
2.43.0


From 97cd177eaf7d1acc1fd2278a7553e21bef990e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 34/41] fix: refuse numbers that end in a line feed

The dollar sign also matches before a trailing line feed, so that "12345\n"
was accepted where every other character around a number is refused.
---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index fda8f43..657a541 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -14,7 +14,7 @@ from messaging.sms.base import SmsBase
 from messaging.sms.gsm0338 import is_gsm_text
 from messaging.sms.pdu import Pdu
 
-VALID_NUMBER = re.compile("^\+?\d{3,20}$")
+VALID_NUMBER = re.compile("^\+?\d{3,20}\Z")
 
 
 class SmsSubmit(SmsBase):
-- 
2.43.0


From 821fae2a24767ccb6c2eb9f6f60247397029dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 35/41] fix: do not keep the alphabet chosen for a text for the
 next one

A message that was encoded with the GSM alphabet could not be encoded any
more after its text was changed to one that needs UCS2.
---
 messaging/sms/submit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 657a541..6dcc687 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -80,7 +80,13 @@ class SmsSubmit(SmsBase):
         tpmessref_pdu = self._get_tpmessref_pdu()
         sms_phone_pdu = self._get_phone_pdu()
         tppid_pdu = self._get_tppid_pdu()
-        sms_msg_pdu = self._get_msg_pdu()
+
+        # the alphabet that suits this text might not suit the next one
+        fmt = self.fmt
+        try:
+            sms_msg_pdu = self._get_msg_pdu()
+        finally:
+            self.fmt = fmt
 
         if len(sms_msg_pdu) == 1:
             pdu = smsc_pdu
-- 
2.43.0


From a75729d14eedf31a6c5de40465a7e67b59155d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 36/41] fix: leave the reference that the caller chose as it is

Encoding a message changed its ref attribute to what is sent of it.
---
 messaging/sms/submit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 6dcc687..d4ce09d 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -162,8 +162,7 @@ class SmsSubmit(SmsBase):
         if self.ref is None:
             self.ref = self._get_rand_id()
 
-        self.ref &= 0xFF
-        return encode_str(chr(self.ref))
+        return encode_str(chr(self.ref & 0xFF))
 
     def _get_phone_pdu(self):
         number = clean_number(self.number)
-- 
2.43.0


From 7f28ed54c557d1ea3bf56836a13cfb54cc6fc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 37/41] fix: UserDataHeader.from_bytes leaves the array it is
 given alone

---
 messaging/sms/udh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index fb9f71a..63501f0 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -46,6 +46,8 @@ class UserDataHeader(object):
     @classmethod
     def from_bytes(cls, data):
         udh = cls()
+        # the elements are popped, and the array belongs to the caller
+        data = data[:]
         while len(data):
             iei = data.pop(0)
             ie_len = data.pop(0)
-- 
2.43.0


From dcbd88c5828a8581b670f131565192fc20bd6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 38/41] fix: refuse negative variable length integers instead
 of encoding another one

---
 messaging/mms/wsp_pdu.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 5890e19..6f86dec 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1442,9 +1442,14 @@ class Encoder:
         used octet is set to '1' to indicate more is to follow; the last used
         octet's "continue bit" is set to 0.
 
+        :raise EncodeError: the specified integer is negative
+
         :return: the binary-encoded uint_var, as a list of byte values
         :rtype: list
         """
+        if uint < 0:
+            raise EncodeError('<uint> must not be negative: %d' % uint)
+
         uint_var = [uint & 0x7f]
         # Since this is the lowest entry, we do not set the continue bit to 1
         uint = uint >> 7
-- 
2.43.0


From e646fe018d8cc94c4f6fa49cf31ee54c4f411ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 39/41] fix: encode the length of a part's data, not of the
 file it came from

Once a part made from a file had been read (encoded, say), its length was
still that of the file: when the file changed afterwards, the next encoding
announced another length than that of the data that follow it.
---
 messaging/mms/message.py | 3 ++-
 messaging/mms/mms_pdu.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index f53ca5f..d7e1714 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -533,7 +533,8 @@ class DataPart(object):
 
     def __len__(self):
         """Provides the length of the data encapsulated by this object"""
-        if self._filename is not None:
+        # once the file has been read, its content is what this part holds
+        if self._filename is not None and self._data is None:
             return int(os.stat(self._filename)[6])
         else:
             return len(self.data)
diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index cf00b4b..7170d6b 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -801,13 +801,14 @@ class MMSEncoder(wsp_pdu.Encoder):
             headers_len = len(part_content_type) + len(encoded_part_headers)
             message_body.extend(self.encode_uint_var(headers_len))
             # DataLen entry (length of the Data field)
-            message_body.extend(self.encode_uint_var(len(part)))
+            data = part.data
+            message_body.extend(self.encode_uint_var(len(data)))
             # ContentType entry
             message_body.extend(part_content_type)
             # Headers
             message_body.extend(encoded_part_headers)
             # Data (note: we do not null-terminate this)
-            for char in part.data:
+            for char in data:
                 message_body.append(ord(char))
 
         return message_body
-- 
2.43.0


From 632cc843ed4a7ff9485f1a358ff926e6036a2d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 40/41] fix: a message that can not be encoded leaves the file
 it was to be stored in alone

---
 messaging/mms/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index d7e1714..d0383fb 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -233,8 +233,10 @@ class MMSMessage:
         :rtype array.array('B')
         :return: The binary-encode MMS data, as an array of bytes
         """
+        # a message that can not be encoded must not truncate the file
+        data = self.encode()
         with open(filename, 'wb') as f:
-            self.encode().tofile(f)
+            data.tofile(f)
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 533fba337d7e21aaf960585949c79c90d96fb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 41/41] fix: the octet of Any-charset is 128, not 127

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 6f86dec..15d9513 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1289,7 +1289,7 @@ class Decoder:
         # Look for the Any-charset value
         byte = byte_iter.preview()
         byte_iter.reset_preview()
-        if byte == 127:
+        if byte == 128:
             byte_iter.next()
             decoded_charset = '*'
         else:
-- 
2.43.0

