From 2ccc90fca68d96e17c10e6f0befc850c58ba9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:39 +0000
Subject: [PATCH 01/19] fix: use integer division where Python 2's / meant it

Under Python 3 the true division returned floats, so key generation,
PKCS1 padding, bit string conversion and the incremental Base64 codecs
all failed with TypeError.
---
 python/src/keyczar/keyinfo.py |  6 +++---
 python/src/keyczar/keys.py    |  8 ++++----
 python/src/keyczar/util.py    | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/src/keyczar/keyinfo.py b/python/src/keyczar/keyinfo.py
index 3a02d87..d033bc9 100644
--- a/python/src/keyczar/keyinfo.py
+++ b/python/src/keyczar/keyinfo.py
@@ -125,10 +125,10 @@ class CipherMode(_NameId):
     self.use_iv = use_iv
     self.GetOutputSize = OutputSizeFn
 
-CBC = CipherMode("CBC", 0, True, lambda b, i: (i / b + 2) * b)
-CTR = CipherMode("CTR", 1, True, lambda b, i: i + b / 2)
+CBC = CipherMode("CBC", 0, True, lambda b, i: (i // b + 2) * b)
+CTR = CipherMode("CTR", 1, True, lambda b, i: i + b // 2)
 ECB = CipherMode("ECB", 2, False, lambda b, i: b)
-DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i / b + 1) * b)
+DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i // b + 1) * b)
 modes = {"CBC": CBC, "CTR": CTR, "ECB": ECB, "DET_CBC": DET_CBC}
 
 def GetMode(name):
diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..e86ba29 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -354,7 +354,7 @@ class AesKey(SymmetricKey):
     @return: an AES key
     @rtype: L{AesKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size
     return AesKey(key_string, hmac_key, size)
@@ -419,7 +419,7 @@ class AesKey(SymmetricKey):
     @return: best buffer size
     @rtype: int
     """
-    no_pad_size = self.block_size * (buffer_size / self.block_size)
+    no_pad_size = self.block_size * (buffer_size // self.block_size)
     return max(no_pad_size, self.block_size)
 
   def Encrypt(self, data):
@@ -521,7 +521,7 @@ class HmacKey(SymmetricKey):
     @return: an HMAC-SHA1 key
     @rtype: L{HmacKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     return HmacKey(key_string, size)
 
@@ -850,7 +850,7 @@ class RsaPrivateKey(PrivateKey):
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
-    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
+    return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
     """@see: L{RsaPublicKey.Verify}"""
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..088fe41 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -246,13 +246,13 @@ def MakeEmsaMessage(msg, modulus_size):
   magic_sha1_header = [0x30, 0x21, 0x30, 0x9, 0x6, 0x5, 0x2b, 0xe, 0x3, 0x2,
                        0x1a, 0x5, 0x0, 0x4, 0x14]
   encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
-  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
+  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
   return chr(1) + pad_string + chr(0) + encoded
 
 def BinToBytes(bits):
   """Convert bit string to byte string."""
   bits = _PadByte(bits)
-  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
+  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) // 8)]
   return "".join([chr(int(x, 2)) for x in octets])
 
 def BytesToBin(byte_string):
@@ -268,9 +268,9 @@ def IntToBin(n):
   if n == 0 or n == 1:
     return str(n)
   elif n % 2 == 0:
-    return IntToBin(n / 2) + "0"
+    return IntToBin(n // 2) + "0"
   else:
-    return IntToBin(n / 2) + "1"
+    return IntToBin(n // 2) + "1"
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
@@ -531,7 +531,7 @@ class BufferedIncrementalBase64WSEncoder(codecs.BufferedIncrementalEncoder):
     # and return an (output, length consumed) tuple
     if not final:
       # only output exact multiples of 3-bytes => no padding
-      len_to_write = 3 * (len(input) / 3)
+      len_to_write = 3 * (len(input) // 3)
     else:
       len_to_write = len(input)
     return (Base64WSEncode(input[:len_to_write]), len_to_write)
@@ -658,7 +658,7 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     """
     if not final:
       # only output exact multiples of 4-bytes => no padding
-      len_to_read = 4 * (len(input) / 4)
+      len_to_read = 4 * (len(input) // 4)
     else:
       len_to_read = len(input)
     return (Base64WSDecode(input[:len_to_read]), len_to_read)
-- 
2.43.0


From 2f9f7ed9adc5cbfccf5a6f69b52ff46683a32292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:52 +0000
Subject: [PATCH 02/19] fix: convert byte strings to bytes at the library
 boundary

Byte strings are str objects with characters 0-255 throughout (chr, ord,
''.join), but hashlib, hmac, base64, struct, os.urandom, pyasn1, PyCrypto
and M2Crypto take and return bytes under Python 3, so every operation on
a non-empty key set raised TypeError.
---
 python/src/keyczar/keys.py | 55 ++++++++++++++++++----------
 python/src/keyczar/util.py | 75 ++++++++++++++++++++++++--------------
 2 files changed, 83 insertions(+), 47 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e86ba29..68d9278 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -23,6 +23,7 @@ of base class Key.
 
 import hmac
 import math
+import os
 import random
 try:
   # Import hashlib if Python >= 2.5
@@ -199,7 +200,14 @@ class AesKey(SymmetricKey):
       @param mode: the cipher mode
       @type mode: integer (using AES values, e.g. AES.MODE_CBC)
       """
-      self.cipher = AES.new(key_bytes, mode, iv_bytes)
+      self.cipher = AES.new(util.StrToBytes(key_bytes), mode,
+                            util.StrToBytes(iv_bytes))
+
+    def encrypt(self, string):
+      return util.BytesToStr(self.cipher.encrypt(util.StrToBytes(string)))
+
+    def decrypt(self, string):
+      return util.BytesToStr(self.cipher.decrypt(util.StrToBytes(string)))
 
     def __getattr__(self, name):
       # defer everything to the actual cipher instance
@@ -279,8 +287,8 @@ class AesKey(SymmetricKey):
           # EVP requires different mode strings for each key size (in bits)
           mode = 'aes_%s_cbc' %(self.key_size*8)
           cipher = EVP.Cipher(alg=mode,
-                              key=self.key_bytes, 
-                              iv=self.IV,
+                              key=util.StrToBytes(self.key_bytes),
+                              iv=util.StrToBytes(self.IV),
                               op=selector,
                               padding=0
                              )
@@ -297,7 +305,8 @@ class AesKey(SymmetricKey):
       @return: plaintext string
       @rtype: string
       """
-      return self.__Cipher(self.OP_DECRYPT).update(string)
+      return util.BytesToStr(
+          self.__Cipher(self.OP_DECRYPT).update(util.StrToBytes(string)))
 
     def encrypt(self, string):
       """
@@ -309,7 +318,8 @@ class AesKey(SymmetricKey):
       @return: raw byte encrypted string  
       @rtype: string
       """
-      return self.__Cipher(self.OP_ENCRYPT).update(string)
+      return util.BytesToStr(
+          self.__Cipher(self.OP_ENCRYPT).update(util.StrToBytes(string)))
 
     def final(self, selector=OP_ACTIVE):
       """
@@ -317,7 +327,7 @@ class AesKey(SymmetricKey):
 
       @return: remaining encrypted data, if any
       """
-      return self.__Cipher(selector).final()
+      return util.BytesToStr(self.__Cipher(selector).final())
 
   def __init__(self, key_string, hmac_key, size=keyinfo.AES.default_size,
                mode=keyinfo.CBC):
@@ -549,7 +559,8 @@ class HmacKey(SymmetricKey):
     @return: raw byte string signature
     @rtype: string
     """
-    return hmac.new(self.key_bytes, msg, sha1).digest()
+    return util.BytesToStr(hmac.new(util.StrToBytes(self.key_bytes),
+                                    util.StrToBytes(msg), sha1).digest())
 
   def Verify(self, msg, sig_bytes):
     """
@@ -591,10 +602,10 @@ class HmacKeyStream(object):
 
   def __init__(self, hmac_key):
     self.hmac_key = hmac_key
-    self.hmac = hmac.new(self.hmac_key.key_bytes, '', sha1)
+    self.hmac = hmac.new(util.StrToBytes(self.hmac_key.key_bytes), b'', sha1)
 
   def Update(self, data):
-      self.hmac.update(data)
+      self.hmac.update(util.StrToBytes(data))
 
   def Sign(self):
     """
@@ -603,7 +614,7 @@ class HmacKeyStream(object):
     @return: raw byte string signature
     @rtype: string
     """
-    return self.hmac.digest()
+    return util.BytesToStr(self.hmac.digest())
 
 
 class PrivateKey(AsymmetricKey):
@@ -649,7 +660,7 @@ class DsaPrivateKey(PrivateKey):
     @return: a DSA private key
     @rtype: L{DsaPrivateKey}
     """
-    key = DSA.generate(size, util.RandBytes)
+    key = DSA.generate(size, os.urandom)
     params = { 'x': util.PadBytes(util.BigIntToBytes(key.x), 1) }
     pubkey = key.publickey()
     pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
@@ -694,7 +705,7 @@ class DsaPrivateKey(PrivateKey):
     # Need to chose a random k per-message, SystemRandom() is available
     # since Python 2.4.
     k = random.SystemRandom().randint(2, self.key.q-1)
-    (r, s) = self.key.sign(util.Hash(msg), k)
+    (r, s) = self.key.sign(util.StrToBytes(util.Hash(msg)), k)
     return util.MakeDsaSig(r, s)
 
   def Verify(self, msg, sig):
@@ -775,7 +786,7 @@ class RsaPrivateKey(PrivateKey):
     @return: a RSA private key
     @rtype: L{RsaPrivateKey}
     """
-    key = RSA.generate(size, util.RandBytes)
+    key = RSA.generate(size, os.urandom)
     #NOTE: PyCrypto stores p < q, u = p^{-1} mod q
     #But OpenSSL and PKCS8 stores q < p, invq = q^{-1} mod p
     #So we have to reverse the p and q values
@@ -835,8 +846,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(ciph_bytes)
-    return self.__Decode(decrypted)
+    decrypted = self.key.decrypt(util.StrToBytes(ciph_bytes))
+    return self.__Decode(util.BytesToStr(decrypted))
 
   def Sign(self, msg):
     """
@@ -849,7 +860,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
-    byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
+    byte_string = util.BigIntToBytes(self.key.sign(util.StrToBytes(emsa_encoded),
+                                                   None)[0])
     return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
@@ -919,7 +931,7 @@ class DsaPublicKey(PublicKey):
     """
     try:
       (r, s) = util.ParseDsaSig(sig)
-      return self.key.verify(util.Hash(msg), (r, s))
+      return self.key.verify(util.StrToBytes(util.Hash(msg)), (r, s))
     except errors.KeyczarError:
       # if signature is not in correct format
       return False
@@ -998,8 +1010,9 @@ class RsaPublicKey(PublicKey):
     @rtype: string
     """
     data = self.__Encode(data)
-    ciph_bytes = self.key.encrypt(data, None)[0]  # PyCrypto returns 1-tuple
-    return self.Header() + ciph_bytes
+    ciph_bytes = self.key.encrypt(util.StrToBytes(data),
+                                  None)[0]  # PyCrypto returns 1-tuple
+    return self.Header() + util.BytesToStr(ciph_bytes)
 
   def Verify(self, msg, sig):
     """
@@ -1015,7 +1028,9 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
-      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
+      return self.key.verify(
+          util.StrToBytes(util.MakeEmsaMessage(msg, self.size)),
+          (util.BytesToLong(sig),))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 088fe41..1b38ee8 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -95,6 +95,16 @@ DEFAULT_STREAM_BUFF_SIZE = 4096
 # environment variable that holds a list of additional plugin backend paths
 BACKEND_PATHS_ENV_VAR = 'KEYCZAR_BACKEND_PATHS'
 
+# Keyczar passes byte strings around as str objects whose characters are all in
+# the range 0-255. The libraries underneath want bytes, convert at the boundary.
+def StrToBytes(byte_string):
+  """Convert a byte string (str with characters 0-255) to bytes."""
+  return byte_string.encode('latin-1')
+
+def BytesToStr(raw):
+  """Convert bytes to a byte string (str with characters 0-255)."""
+  return raw.decode('latin-1')
+
 def ASN1Sequence(*vals):
   seq = univ.Sequence()
   for i in range(len(vals)):
@@ -119,7 +129,7 @@ def ParseASN1Sequence(seq):
 #
 #Attributes ::= SET OF Attribute
 def ParsePkcs8(pkcs8):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(pkcs8))[0])
+  seq = ParseASN1Sequence(decoder.decode(StrToBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
     raise errors.KeyczarError("Illegal PKCS8 String.")
   version = int(seq[0])
@@ -152,7 +162,7 @@ def ExportRsaPkcs8(params):
     key.setComponentByPosition(i+1, univ.Integer(params[RSA_PARAMS[i]]))
   octkey = encoder.encode(key)
   seq = ASN1Sequence(univ.Integer(0), oid, univ.OctetString(octkey))
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(BytesToStr(encoder.encode(seq)))
 
 def ExportDsaPkcs8(params):
   alg_params = univ.Sequence()
@@ -161,21 +171,19 @@ def ExportDsaPkcs8(params):
   oid = ASN1Sequence(DSA_OID, alg_params)
   octkey = encoder.encode(univ.Integer(params['x']))
   seq = ASN1Sequence(univ.Integer(0), oid, univ.OctetString(octkey))
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(BytesToStr(encoder.encode(seq)))
 
 #NOTE: not full X.509 certificate, just public key info
 #SubjectPublicKeyInfo  ::=  SEQUENCE  {
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
 def ParseX509(x509):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(x509))[0])
+  seq = ParseASN1Sequence(decoder.decode(StrToBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
-  pubkey = decoder.decode(univ.OctetString(BinToBytes(seq[1].
-                                                      prettyPrint()[2:-3])))[0]
-  # Component 1 should be a BIT STRING, get raw bits by discarding extra chars,
-  # then convert to OCTET STRING which can be ASN.1 decoded
+  pubkey = decoder.decode(seq[1].asOctets())[0]
+  # Component 1 should be a BIT STRING, its octets can be ASN.1 decoded
   params = {}
   if oid == RSA_OID:
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
@@ -191,20 +199,21 @@ def ParseX509(x509):
 def ExportRsaX509(params):
   oid = ASN1Sequence(RSA_OID, univ.Null())
   key = ASN1Sequence(univ.Integer(params['n']), univ.Integer(params['e']))
-  binkey = BytesToBin(encoder.encode(key))
+  binkey = BytesToBin(BytesToStr(encoder.encode(key)))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(BytesToStr(encoder.encode(seq)))
 
 def ExportDsaX509(params):
   alg_params = ASN1Sequence(univ.Integer(params['p']),
                             univ.Integer(params['q']),
                             univ.Integer(params['g']))
   oid = ASN1Sequence(DSA_OID, alg_params)
-  binkey = BytesToBin(encoder.encode(univ.Integer(params['y'])))
+  binkey = BytesToBin(BytesToStr(
+      encoder.encode(univ.Integer(params['y']))))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
-  return Base64WSEncode(encoder.encode(seq))
+  return Base64WSEncode(BytesToStr(encoder.encode(seq)))
 
 def MakeDsaSig(r, s):
   """
@@ -220,7 +229,7 @@ def MakeDsaSig(r, s):
   @rtype: string
   """
   seq = ASN1Sequence(univ.Integer(r), univ.Integer(s))
-  return encoder.encode(seq)
+  return BytesToStr(encoder.encode(seq))
 
 def ParseDsaSig(sig):
   """
@@ -234,7 +243,7 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
+  seq = decoder.decode(StrToBytes(sig))[0]
   if len(seq) != 2:
     raise errors.KeyczarError("Illegal DSA signature.")
   r = int(seq.getComponentByPosition(0))
@@ -318,22 +327,22 @@ def TrimBytes(byte_string):
 def RandBytes(n):
   """Return n random bytes."""
   # This function requires at least Python 2.4.
-  return os.urandom(n)
+  return BytesToStr(os.urandom(n))
 
 def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(i)
-  return md.digest()
+    md.update(StrToBytes(i))
+  return BytesToStr(md.digest())
 
 def PrefixHash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(IntToBytes(len(i)))
-    md.update(i)
-  return md.digest()
+    md.update(StrToBytes(IntToBytes(len(i))))
+    md.update(StrToBytes(i))
+  return BytesToStr(md.digest())
 
 
 def Encode(s):
@@ -354,7 +363,7 @@ def Base64WSEncode(s):
   @return: Base64 representation of s.
   @rtype: string
   """
-  return base64.urlsafe_b64encode(str(s)).replace("=", "")
+  return BytesToStr(base64.urlsafe_b64encode(StrToBytes(str(s)))).replace("=", "")
 
 
 def Decode(s):
@@ -388,9 +397,9 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+    return BytesToStr(base64.urlsafe_b64decode(StrToBytes(s)))
+  except ValueError:
+    # Decoding raises ValueError if s contains invalid characters.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
@@ -404,7 +413,8 @@ def PackByteArray(array):
   """
   if array is None:
     return ''
-  array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
+  array_length_header = BytesToStr(
+      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array)))
   return array_length_header + array
 
 def PackMultipleByteArrays(*arrays):
@@ -414,7 +424,8 @@ def PackMultipleByteArrays(*arrays):
   four-byte big-endian integer, followed by the arrays in sequence, each
   length-prefixed by PackByteArray().
   """
-  array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
+  array_count_header = BytesToStr(
+      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays)))
   array_contents = ''.join([PackByteArray(a) for a in arrays])
   return array_count_header + array_contents
 
@@ -424,7 +435,8 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER, data[offset:offset + 4])[0]
+  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                            StrToBytes(data[offset:offset + 4]))[0]
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
@@ -638,6 +650,14 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
   undecoded data outside this optimal size will be buffered.
   """
 
+  def __init__(self, errors='strict'):
+    super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
+    self.buffer = ''  # Base64 text, not bytes
+
+  def reset(self):
+    super(BufferedIncrementalBase64WSDecoder, self).reset()
+    self.buffer = ''
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
@@ -727,6 +747,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
 
     """
     super(IncrementalBase64WSStreamReader, self).__init__(stream, errors)
+    self.bytebuffer = ''  # Base64 text, not bytes
     self.decoder = BufferedIncrementalBase64WSDecoder(errors=errors)
 
   def read(self, size=-1, chars=-1, firstline=False):
-- 
2.43.0


From faf1d853c6960492b724b200313cee125551da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:22 +0000
Subject: [PATCH 03/19] fix: decrypt with the active crypto library

Encrypt honours ACTIVE_CRYPT_LIB, but Decrypt and both streams always used
PyCrypto's AES directly, bypassing the selection and the adaptors.
---
 python/src/keyczar/keys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 68d9278..81631de 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -444,7 +444,7 @@ class AesKey(SymmetricKey):
     """
     data = self._Pad(data)
     iv_bytes = util.RandBytes(self.block_size)
-    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     ciph_bytes = cipher.encrypt(data)
     ciph_bytes += cipher.final()
     msg_bytes = self.Header() + iv_bytes + ciph_bytes
@@ -475,10 +475,10 @@ class AesKey(SymmetricKey):
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
 
-    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
+    plain = self._CreateCipher(self.key_bytes, iv_bytes).decrypt(ciph_bytes)
     return self._UnPad(plain)
 
-  def __CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
+  def _CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
     """
     Factory function for creating cipher of specified type using the active
     crypto library
@@ -1059,7 +1059,7 @@ class EncryptingStreamWriter(object):
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
-    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
+    self.__cipher = key._CreateCipher(key.key_bytes, iv_bytes)
 
     hdr = key.Header()
     self.__hmac_stream.Update(hdr + iv_bytes)
@@ -1317,6 +1317,6 @@ class DecryptingStreamReader(object):
         self.__encrypted_buffer = self.__encrypted_buffer[
             reqd_block_size:]
         self.__hmac_stream.Update(iv_bytes)
-        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
+        self.__cipher = self.__key._CreateCipher(self.__key.key_bytes, iv_bytes)
     return is_data_avail
 
-- 
2.43.0


From d2d21022b4e07058d68f5bb3855140be9402b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 04/19] fix: raise NoPrimaryKeyError when a key set has no
 primary key

primary_key looked None up among the keys, so Encrypt, Sign and the
streams raised KeyNotFoundError instead of the documented error and the
None checks guarding NoPrimaryKeyError could never fire.
---
 python/src/keyczar/keyczar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..a666af5 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,7 +68,8 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
+  primary_key = property(lambda self: None if self.primary_version is None
+                                      else self.GetKey(self.primary_version),
                          doc="""The primary key for this key set.""")
 
   def __str__(self):
@@ -596,7 +597,8 @@ class Signer(Verifier):
     @return: signature on the data encoded as a Base64 string
     @rtype: string
     """
-    signature = self.primary_key.Header() + self.__InternalSign(data)
+    internal_sig = self.__InternalSign(data)
+    signature = self.primary_key.Header() + internal_sig
     return encoder(signature) if encoder else signature
 
   def AttachedSign(self, data, nonce, encoder=util.Base64WSEncode):
@@ -615,9 +617,10 @@ class Signer(Verifier):
     @return: signature on the data encoded as a Base64 string
     @rtype: string
     """
+    internal_sig = self.__InternalSign(data, nonce)
     signature = self.primary_key.Header() \
                 + util.PackByteArray(data) \
-                + self.__InternalSign(data, nonce)
+                + internal_sig
     return encoder(signature) if encoder else signature
 
 
-- 
2.43.0


From 213a9baae78bd3b113211dffd59f273a7435d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 05/19] fix: forget the key when its version is revoked

Revoke removed the version from the metadata only: the key could still be
looked up, Write wrote the revoked key out again and PublicKeyExport
exported it.
---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index a666af5..c15a8b4 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -248,6 +248,8 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      key = self._keys.pop(version)
+      del self._keys[key.hash_id]
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From 45ecf2e1bd272f68afc9754bbc67876f66efe80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 06/19] fix: leave the key set alone when adding a version
 fails

AddVersion demoted the current primary before generating the new key, so
a failing generation (public key sets) left a primary version without a
key behind.
---
 python/src/keyczar/keyczar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index c15a8b4..7b1931e 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -174,11 +174,6 @@ class GenericKeyczar(Keyczar):
     # Make the new version number the max of the existing versions plus one
     version = keydata.KeyVersion(max_version_number + 1, status, False)
 
-    if status == keyinfo.PRIMARY:
-      if self.primary_version is not None:
-        self.primary_version.status = keyinfo.ACTIVE
-      self.primary_version = version
-
     if size < self.default_size:
       print(("WARNING: %d-bit key size is less than recommended default key"
             "size of %d bits for %s keys."
@@ -190,6 +185,11 @@ class GenericKeyczar(Keyczar):
       if self._keys.get(key.hash_id) is None:
         break
 
+    if status == keyinfo.PRIMARY:
+      if self.primary_version is not None:
+        self.primary_version.status = keyinfo.ACTIVE
+      self.primary_version = version
+
     self._AddKey(version, key)
 
   def Promote(self, version_number):
-- 
2.43.0


From 78f2b4692480aedf698afba8c4f9fccaecf997cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 07/19] fix: report malformed DSA signatures as KeyczarError

ParseDsaSig let the ASN.1 decoder's exceptions escape, so Verify raised
on a corrupt signature instead of returning False.
---
 python/src/keyczar/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 1b38ee8..9560459 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -51,6 +51,7 @@ except ImportError:
 
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
+from pyasn1.error import PyAsn1Error
 from pyasn1.type import univ
 
 from . import errors
@@ -243,11 +244,14 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(StrToBytes(sig))[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(StrToBytes(sig))[0]
+    if len(seq) != 2:
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = int(seq.getComponentByPosition(0))
+    s = int(seq.getComponentByPosition(1))
+  except (PyAsn1Error, AttributeError, TypeError, ValueError):
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From d0d4262129cd36dea3d4944eab4ccd2598fcc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 08/19] fix: compute the RSA modulus length exactly

math.log(n, 256) rounds up to a whole number for moduli just below a power
of 256, which made OAEP encode and decode one byte off.
---
 python/src/keyczar/keys.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 81631de..345742a 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -22,7 +22,6 @@ of base class Key.
 """
 
 import hmac
-import math
 import os
 import random
 try:
@@ -733,7 +732,7 @@ class RsaPrivateKey(PrivateKey):
         "OAEP Decoding Error - encoded_message is too small: %d" % len(encoded_message))
 
     # Step 3b  EM = Y || maskedSeed || maskedDB
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = (self.key.n.bit_length() + 7) // 8 # num bytes in n
     diff_len = k - len(encoded_message)
     # PyCrypto strips out leading zero bytes.
     # In OAEP, the first byte is expected to be a zero, so we can ignore it
@@ -948,7 +947,7 @@ class RsaPublicKey(PublicKey):
   def __Encode(self, msg, label=""):
     if len(label) >= 2**61:  # the input limit for SHA-1
       raise errors.KeyczarError("OAEP parameter string too long.")
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = (self.key.n.bit_length() + 7) // 8 # num bytes in n
     if len(msg) > k - 2 * util.HLEN - 2:
       raise errors.KeyczarError("Message too long to OAEP encode.")
     label_hash = util.Hash(label)
-- 
2.43.0


From 064ad0fdc17fa4e508c263f0bbc17ee9e6e41b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:06 +0000
Subject: [PATCH 09/19] fix: reject truncated ciphertext streams

A stream cut short to at most a signature's length after the IV was read
as an empty plaintext, no signature having been checked. read() documents
ShortCiphertextError for it.
---
 python/src/keyczar/keys.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 345742a..9ee6135 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1157,6 +1157,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1225,10 +1226,15 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          self.__verified = True
           decrypted_data = self.__key._UnPad(decrypted_data)
           
         self.__decrypted_buffer += decrypted_data
         
+    if not is_data_avail and not self.__verified:
+      # the input ended before there was a signature to check
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 0cb9e77907e7e2d61ed3ebb106f5f8cc894b43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 10/19] fix: refuse negative lengths when unpacking byte arrays

A length of -4 made UnpackMultipleByteArrays loop forever on session
material that anyone with the public key can produce.
---
 python/src/keyczar/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9560459..d739981 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -454,7 +454,9 @@ def UnpackMultipleByteArrays(data):
   position = 4
   result = []
   while position < len(data):
-    array, position = UnpackByteArray(data, position)
+    array, next_position = UnpackByteArray(data, position)
+    assert next_position > position  # lengths are not negative
+    position = next_position
     result.append(array)
   assert position == len(data)
   return result
-- 
2.43.0


From 00e3a9999ae6f1a9c0c91fc59960247e642b2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 11/19] fix: return the implementations' output as text

check_output returns bytes under Python 3, the callers and the test want
a string.
---
 interop/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interop/interop.py b/interop/interop.py
index 513bb2b..d6f22a4 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -298,7 +298,8 @@ class InteropTestRunner(object):
     """ Makes a call to an implementation and returns response """
     args = self.implementations[implementation] + list(params)
     try:
-      return subprocess.check_output(args, stderr=subprocess.STDOUT)
+      return subprocess.check_output(args, stderr=subprocess.STDOUT,
+                                     universal_newlines=True)
     except subprocess.CalledProcessError as e:
       cmd = subprocess.list2cmdline(args)
       raise Exception("%s failed:\n %s" % (cmd, e.output))
-- 
2.43.0


From 40ca774c0c2020a153a29b827f82409376499d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:34 +0000
Subject: [PATCH 12/19] fix: report a failed key file removal as KeyczarError

---
 python/src/keyczar/writers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/writers.py b/python/src/keyczar/writers.py
index db011a1..b162be7 100644
--- a/python/src/keyczar/writers.py
+++ b/python/src/keyczar/writers.py
@@ -130,7 +130,11 @@ class FileWriter(Writer):
     """
     Remove the key for the given version.
     """
-    os.remove(os.path.join(self.location, str(version_number)))
+    fname = os.path.join(self.location, str(version_number))
+    try:
+      os.remove(fname)
+    except OSError:
+      raise errors.KeyczarError("Unable to remove file %s." % fname)
 
   def Close(self):
     """
-- 
2.43.0


From cda398432114cefa14eca3a9adfd60f726344d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:34 +0000
Subject: [PATCH 13/19] fix: ignore whitespace when decoding Base64
 incrementally

---
 python/src/keyczar/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d739981..49a4c62 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -705,7 +705,9 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     @return: plaintext representation of input.
     @rtype: string
     """
-    result = super(BufferedIncrementalBase64WSDecoder, self).decode(input,
+    # kill whitespace here, it must not count towards the groups of 4 characters
+    text = ''.join(input.splitlines()).replace(" ", "")
+    result = super(BufferedIncrementalBase64WSDecoder, self).decode(text,
                                                                   final=final)
     return (result, len(input))
 
-- 
2.43.0


From 6ed627d8b24438c5f516769956e2a21e54e42db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:50 +0000
Subject: [PATCH 14/19] fix: accept only the DER form of a DSA signature

---
 python/src/keyczar/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 49a4c62..4619f4b 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -252,6 +252,8 @@ def ParseDsaSig(sig):
     s = int(seq.getComponentByPosition(1))
   except (PyAsn1Error, AttributeError, TypeError, ValueError):
     raise errors.KeyczarError("Illegal DSA signature.")
+  if MakeDsaSig(r, s) != sig:  # other types, trailing data or not DER
+    raise errors.KeyczarError("Illegal DSA signature.")
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From f47779bd030dbbfc2d12a3f48f8c0458b45b71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:16 +0000
Subject: [PATCH 15/19] fix: close the underlying stream in
 IncrementalBase64WSStreamWriter.close

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 4619f4b..9924072 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -625,7 +625,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From da93ea08dfe663bc51e223bff70940807f9b4967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:02 +0000
Subject: [PATCH 16/19] fix: refuse a negative length in packed byte arrays

---
 python/src/keyczar/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9924072..c846128 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -443,6 +443,9 @@ def UnpackByteArray(data, offset):
   """
   array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                             StrToBytes(data[offset:offset + 4]))[0]
+  if array_len < 0:
+    raise errors.KeyczarError("Negative length of packed byte array: %d" %
+                              array_len)
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
-- 
2.43.0


From dff8ef9de07a2877a67db4d3fc723a539fb9fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:44 +0000
Subject: [PATCH 17/19] fix: refuse an OAEP encoding without delimiter with
 KeyczarError

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 9ee6135..24c8eb4 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -759,7 +759,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
-- 
2.43.0


From 3bae7b8ae305135dffd0d1c5b8bb69f5b474cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:15 +0000
Subject: [PATCH 18/19] fix: refuse an empty PKCS8 or X.509 SEQUENCE with
 KeyczarError

---
 python/src/keyczar/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index c846128..be30f28 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -113,6 +113,8 @@ def ASN1Sequence(*vals):
   return seq
 
 def ParseASN1Sequence(seq):
+  if seq is None:  # what pyasn1 decodes an empty SEQUENCE to
+    return []
   return [seq.getComponentByPosition(i) for i in range(len(seq))]
 
 #PrivateKeyInfo ::= SEQUENCE {
-- 
2.43.0


From e702522253efa53f1b400eb5f118dc796f57f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:30 +0000
Subject: [PATCH 19/19] fix: do not flush the Base64 decoder when a read asks
 for nothing

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index be30f28..7cf8480 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -862,7 +862,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
       result = None
 
     if not result and newdata == '':
-      if chars != 0:
+      if chars != 0 and size != 0:
         result = self.decoder.flush()
 
     return result
-- 
2.43.0

