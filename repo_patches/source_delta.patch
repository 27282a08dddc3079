From 71cdc370d073878767730b039b8a99a9f73ac2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 01/34] fix: authenticate empty payloads

An empty plaintext produced no chunk at all, so a file truncated right
after the nonce decrypted successfully to an empty plaintext. An empty
plaintext is now one empty final chunk (as in the age specification) and
a payload without any chunk is rejected.
---
 src/age/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 9a34a08..55e308a 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -14,7 +14,8 @@ def _pack_nonce(nonce: int, last_block: bool = False) -> bytes:
 
 
 def _chunk(data, size):
-    for i in range(0, len(data), size):
+    # empty data still consists of one (empty) chunk: it carries the final-chunk authentication
+    for i in range(0, max(len(data), 1), size):
         yield data[i : i + size]
 
 
@@ -22,7 +23,7 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE)
+    blocks = max(1, math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE))
 
     encrypted = b""
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
@@ -38,7 +39,7 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE)
+    blocks = max(1, math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE))
 
     decrypted = b""
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
-- 
2.43.0


From f88c17c543b6547ff177f167038cdb73e3c5aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 02/34] fix: verify the header MAC over the received bytes

The MAC was verified over a re-serialisation of the parsed header, so
lines before the first recipient, whitespace and re-wrapped bodies could
be changed without detection, and valid headers that are laid out
differently (e.g. bodies ending in an empty line) were refused.
---
 src/age/file.py   |  4 +---
 src/age/format.py | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 1740986..ae702a5 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -103,9 +103,7 @@ class Decryptor(io.RawIOBase):
                 recipients.append(recipient)
 
         self._file_key = decrypt_file_key(recipients, identities)
-        header_stream = io.BytesIO()
-        dump_header(header, header_stream, mac=None)
-        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header_stream.getvalue(), mac)
+        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header.authenticated_bytes, mac)
         # TODO: Should we try another identity if HMAC validation fails?
 
     def _decrypt_body(self):
diff --git a/src/age/format.py b/src/age/format.py
index de9e866..d0e7828 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -26,6 +26,9 @@ class Header:
 
         self.recipients: typing.List[Recipient] = recipients
 
+        # the bytes covered by the MAC exactly as they were received (set by load_header)
+        self.authenticated_bytes: bytes = b""
+
 
 AGE_INTRO = "age-encryption.org/v1"
 RECIPIENT_PREFIX = "->"
@@ -34,9 +37,10 @@ AEAD = "ChaChaPoly"
 
 
 def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
-    first_line = stream.readline().strip()
+    first_line = stream.readline()
+    authenticated_bytes = first_line
 
-    if first_line.decode("utf-8", "replace") != AGE_INTRO:
+    if first_line.strip().decode("utf-8", "replace") != AGE_INTRO:
         raise ParserError("File signature not found.")
 
     header = Header()
@@ -49,15 +53,23 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
             type, *args = line[len(RECIPIENT_PREFIX) :].split()
             header.recipients.append(Recipient(type, args))
         elif line.startswith(FOOTER_PREFIX):
+            authenticated_bytes += FOOTER_PREFIX.encode("utf-8")
             break
         elif len(header.recipients) > 0:
             header.recipients[-1].body += line.strip()
+        authenticated_bytes += raw_line
 
     assert line.startswith(FOOTER_PREFIX)
     prefix, encoded_mac = line.split()
     assert prefix == FOOTER_PREFIX
     mac = decode(encoded_mac)
 
+    # the MAC does not cover its own encoding, so only accept the canonical one
+    if line.rstrip("\n") != FOOTER_PREFIX + " " + encode(mac):
+        raise ParserError("Malformed header footer.")
+
+    header.authenticated_bytes = authenticated_bytes
+
     return header, mac
 
 
-- 
2.43.0


From bd7a282a605eca1adeccc66747010214c4a577f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 03/34] fix: terminate recipient bodies with a short line

A body that is a multiple of 64 columns (e.g. for 3072 bit RSA keys, the
ssh-keygen default) was written without the terminating short line, so
other age v1 implementations refuse the file.
---
 src/age/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/age/format.py b/src/age/format.py
index d0e7828..b5f64b4 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -82,6 +82,9 @@ def dump_header(header: Header, stream: typing.BinaryIO, mac: typing.Optional[by
         if recipient.body:
             wrapped = textwrap.fill(recipient.body, break_on_hyphens=False, width=64)
             stream.write(wrapped.encode("utf-8") + b"\n")
+        if len(recipient.body) % 64 == 0:
+            # the last line of a body is always shorter than 64 columns, empty if necessary
+            stream.write(b"\n")
 
     footer = FOOTER_PREFIX
     if mac:
-- 
2.43.0


From f8623fdba8dd2b8d79ac344a0a25edbb6c600945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 04/34] fix: keep trying identities after a mismatching SSH key

An SSH identity that does not belong to an SSH recipient raised ValueError,
which aborted the search although another identity or recipient matched.
---
 src/age/recipients/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/helpers.py b/src/age/recipients/helpers.py
index 4814876..6a1ce0d 100644
--- a/src/age/recipients/helpers.py
+++ b/src/age/recipients/helpers.py
@@ -31,7 +31,8 @@ def decrypt_file_key(
         for key in _filter_keys_for_recipient(recipient, keys):
             try:
                 return recipient.decrypt(key)
-            except InvalidTag:
+            except (InvalidTag, ValueError):
+                # SSH keys signal a mismatch (and a failed RSA decryption) as ValueError
                 continue
 
     raise NoIdentity("No matching key")
-- 
2.43.0


From 47ed2b7a1da8b4f41a2df02b32a42308b5255582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 05/34] fix: do not write a payload when the header failed

If the header could not be written (e.g. an unusable recipient key), the
destructor of the half-constructed Encryptor still appended a payload and
so created or overwrote the output. A failing close was also repeated by
the destructor, which wrote the payload a second time.
---
 src/age/file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index ae702a5..eca361b 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -24,7 +24,9 @@ class Encryptor(io.RawIOBase):
 
         self._plaintext_buffer: bytes = b""
 
+        self._header_written: bool = False
         self._write_header(keys)
+        self._header_written = True
 
     def writable(self):
         return True
@@ -35,8 +37,12 @@ class Encryptor(io.RawIOBase):
 
     def close(self):
         if not self.closed:
-            self._encrypt_buffer()
-            super().close()
+            try:
+                # without a complete header (failed constructor), there is nothing to finish
+                if self._header_written:
+                    self._encrypt_buffer()
+            finally:
+                super().close()
 
     def _hkdf(self, label: bytes, salt: bytes = b"") -> bytes:
         return hkdf(salt, label, self._file_key, 32)
-- 
2.43.0


From 57d6880af4500c504dfb0b6646069bf1ab67f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 06/34] fix: refuse writes to closed streams

Encryptor and AsciiArmoredOutput accepted and silently discarded data
written after close().
---
 src/age/file.py             | 2 ++
 src/age/utils/asciiarmor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/age/file.py b/src/age/file.py
index eca361b..11cec7d 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -32,6 +32,8 @@ class Encryptor(io.RawIOBase):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 238cd07..adb483a 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -91,6 +91,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
-- 
2.43.0


From c49f5c5b34885ac97da36871337455b19703483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 07/34] fix: flush ASCII armor on close

close() left the armored text in an internal buffer until the object was
destroyed, which also closed the underlying stream and swallowed write
errors.
---
 src/age/utils/asciiarmor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index adb483a..5a89979 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -98,8 +98,12 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def close(self):
         if not self.closed:
-            self._encode_buffer()
-            super().close()
+            try:
+                self._encode_buffer()
+                # flush, and leave the underlying stream open
+                self._text_stream.detach()
+            finally:
+                super().close()
 
     def read(self, n):
         # Needed to implement typing.BinaryIO
-- 
2.43.0


From bd89dcd280b97cea7821e72ce3e373c8e4aa7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 08/34] fix: complete the encryption before touching the output

Encrypting a file onto itself truncated it before it was read and lost the
plaintext, a failing encryption clobbered an existing output file, and
errors while writing armored output went unnoticed (exit status 0).
---
 src/age/cli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9337a64..404fb3d 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -82,13 +82,21 @@ def encrypt(
         print("You must specify at least one recipient.", file=sys.stderr)
         sys.exit(1)
 
+    # only touch the output when the result is complete: the input may be the same file
+    result = io.BytesIO()
+    stream: typing.BinaryIO = result
     if ascii_armored:
         # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
-        outfile = AsciiArmoredOutput(AGE_PEM_LABEL, outfile)  # type: ignore
+        stream = AsciiArmoredOutput(AGE_PEM_LABEL, result)  # type: ignore
 
-    with Encryptor(keys, outfile) as encryptor:
+    with Encryptor(keys, stream) as encryptor:
         encryptor.write(infile.read())
 
+    if ascii_armored:
+        stream.close()
+
+    outfile.write(result.getvalue())
+
 
 def decrypt(
     infile: typing.Optional[typing.BinaryIO] = None,
-- 
2.43.0


From 8ff76965965573ec505696501f0e5e1981355794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 09/34] fix: handle partial writes to unbuffered output

With an unbuffered standard output (python -u, PYTHONUNBUFFERED) a write
that is cut short (e.g. disk full) truncated the output with exit status 0.
---
 src/age/cli.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 404fb3d..8bfb6b7 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -19,6 +19,16 @@ from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredInput, AsciiArmoredO
 from age.utils.copy_doc import copy_doc
 
 
+def _write_all(stream: typing.BinaryIO, data: bytes) -> None:
+    """Write all of `data`, unbuffered streams (e.g. ``python -u``) may accept only a part of it"""
+    written = stream.write(data)
+    while isinstance(stream, io.RawIOBase) and written != len(data):
+        if not written:
+            raise OSError("Could not write the complete output")
+        data = data[written:]
+        written = stream.write(data)
+
+
 def encrypt(
     recipients: typing.Optional[typing.List[str]] = None,
     infile: typing.Optional[typing.BinaryIO] = None,
@@ -95,7 +105,7 @@ def encrypt(
     if ascii_armored:
         stream.close()
 
-    outfile.write(result.getvalue())
+    _write_all(outfile, result.getvalue())
 
 
 def decrypt(
@@ -147,7 +157,7 @@ def decrypt(
         infile = AsciiArmoredInput(AGE_PEM_LABEL, infile)  # type: ignore
 
     with Decryptor(keys, infile) as decryptor:
-        outfile.write(decryptor.read())
+        _write_all(outfile, decryptor.read())
 
 
 def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
-- 
2.43.0


From 068d8814a64f456b6a6c4a153220f93e4e09fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 10/34] fix: fail on recipients that cannot be resolved

A recipient that resolved to no key (e.g. a mistyped alias or file name)
was silently dropped from the recipients as long as another one resolved.
---
 src/age/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 8bfb6b7..7dae183 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -75,7 +75,11 @@ def encrypt(
 
     keys = []
     for recipient in recipients:
-        keys.extend(resolve_public_key(recipient, aliases=aliases))
+        resolved = resolve_public_key(recipient, aliases=aliases)
+        if not resolved:
+            print(f"Could not resolve recipient {recipient}", file=sys.stderr)
+            sys.exit(1)
+        keys.extend(resolved)
 
     if ask_password:
         if recipients:
-- 
2.43.0


From 967dd927661bf2847268055b9775ee23c29f6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 11/34] fix: do not resolve github: links when URLs are
 disabled

Lines of recipient files and of fetched URLs are resolved with
read_urls=False, but a github: line still caused a request.
---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 64ce240..8e0cfe3 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -120,7 +120,7 @@ def resolve_public_key(
         return resolved_from_alias
 
     # resolve "github:" links
-    if keystr.startswith("github:"):
+    if read_urls and keystr.startswith("github:"):
         _, _, username = keystr.partition(":")
         github_url = f"https://github.com/{username}.keys"
         return resolve_public_key(github_url)
-- 
2.43.0


From 964e54a6c534250efddd4ba4b3eef0e4fa2a3580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 12/34] fix: skip unusable SSH keys when looking for identities

A single passphrase-protected, unsupported or damaged ~/.ssh/id_* file
made every decryption fail, even if another identity matched.
---
 src/age/keyloader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 8e0cfe3..8f6079d 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -2,6 +2,7 @@ import collections
 import glob
 import os.path
 import re
+import sys
 import typing
 
 import requests
@@ -70,7 +71,12 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
     keys = []
 
     for filename in glob.glob(os.path.join(root, "id_*")):
-        key = load_ssh_private_key(filename)
+        try:
+            key = load_ssh_private_key(filename)
+        except Exception as e:
+            # e.g. encrypted, unsupported or damaged, there may be other keys which can be used
+            print(f"Ignoring SSH key {filename} ({type(e).__name__})", file=sys.stderr)
+            continue
         if key:
             keys.append(key)
 
-- 
2.43.0


From 0f390fbebc44a5e990d48f74cb2d99c1f638d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 13/34] fix: only hash HMAC keys longer than the block size

RFC 2104 reduces keys that are longer than the block size of the hash
function (64 bytes for SHA-256), but keys of 33 to 64 bytes were reduced
too, which gave wrong authentication tags.
---
 src/age/primitives/hmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/primitives/hmac.py b/src/age/primitives/hmac.py
index 018f6e8..512c72e 100644
--- a/src/age/primitives/hmac.py
+++ b/src/age/primitives/hmac.py
@@ -7,7 +7,7 @@ __all__ = ["HMAC"]
 
 
 def _reduce_key(key: bytes) -> bytes:
-    if len(key) > 32:
+    if len(key) > 64:
         digest = hashes.Hash(hashes.SHA256(), backend=default_backend())
         digest.update(key)
         key = digest.finalize()
-- 
2.43.0


From 69ec101be73fa76aa8e6040ca3923b76f9e01cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 14/34] fix: reject age keys in mixed letter case

Lower-casing the key string first bypassed the case check of the bech32
decoder (which itself accepts all-upper and all-lower case).
---
 src/age/keys/agekey.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/age/keys/agekey.py b/src/age/keys/agekey.py
index a263b4b..8582900 100644
--- a/src/age/keys/agekey.py
+++ b/src/age/keys/agekey.py
@@ -33,8 +33,6 @@ class AgePrivateKey(DecryptionKey):
     @classmethod
     def from_private_string(cls, data: str):
         """Read an age key from a private key string"""
-        data = data.lower()
-
         hrp, bytes_ = bech32_decode(data)
         if hrp != cls.PRIVATE_KEY_BECH32_HRP or len(bytes_) != 32:
             raise ValueError("invalid age private key")
@@ -84,8 +82,6 @@ class AgePublicKey(EncryptionKey):
     @classmethod
     def from_public_string(cls, data: str):
         """Read an age public key from a public key string"""
-        data = data.lower()
-
         hrp, key = bech32_decode(data)
         if hrp != cls.PUBLIC_KEY_BECH32_HRP:
             raise ValueError("invalid age public key")
-- 
2.43.0


From 374ddd5a5cef4f47bf1c1db435c08b822d9e0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 15/34] fix: check the complete padding of OpenSSH keys

---
 src/age/openssh_keys.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index b382024..941417a 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -260,14 +260,9 @@ def load_openssh_private_key(
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
 
-    # check deterministic padding: \x01\x02\x03\x04.. up til max. \x07
-    for i in range(1, 8):
-        try:
-            (pad,) = _read_struct(decrypted_stream, "B")
-        except struct.error:
-            # EOF
-            break
-        if pad != i:
+    # check deterministic padding: \x01\x02\x03\x04.. up to the end
+    for i, pad in enumerate(decrypted_stream.read(), start=1):
+        if pad != i & 0xFF:
             raise InvalidKeyFile("Broken file padding")
 
     return key
-- 
2.43.0


From 0f0b34d74034994f3c99e88f0ccea6a9269b592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 16/34] fix: reject non-ASCII characters in age keys

---
 src/age/primitives/bech32.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/age/primitives/bech32.py b/src/age/primitives/bech32.py
index 041fc55..2bfcbd7 100644
--- a/src/age/primitives/bech32.py
+++ b/src/age/primitives/bech32.py
@@ -152,6 +152,10 @@ def bech32_decode(bech: str) -> typing.Tuple[str, bytes]:
     if not (bech.upper() == bech or bech.lower() == bech):
         raise ValueError("Bech32 string must either be all-lowercase or all-uppercase")
 
+    # some other characters turn into ASCII letters when converted to lowercase
+    if any(ord(c) > 126 for c in bech):
+        raise ValueError("invalid character in Bech32 string")
+
     # normalize to lowercase
     bech = bech.lower()
     pos = bech.rfind("1")
-- 
2.43.0


From 5ef5f24cdc8d4271c59e70978fd59b7e892bd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 17/34] fix: do not reveal the passphrase in str()

---
 src/age/keys/password.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/age/keys/password.py b/src/age/keys/password.py
index 39d7ac7..21ffbe6 100644
--- a/src/age/keys/password.py
+++ b/src/age/keys/password.py
@@ -5,8 +5,5 @@ class PasswordKey(EncryptionKey, DecryptionKey):
     def __init__(self, value: bytes):
         self.value = value
 
-    def __str__(self):
-        return str(self.value)
-
     def __repr__(self):
         return f"<{self.__class__.__name__}>"
-- 
2.43.0


From 1d95c0f667c158641ba9ab88f6a6ae7ed5520ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 18/34] fix: only warn about the permissions of regular files

---
 src/age/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 7dae183..9dba1bf 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -190,7 +190,7 @@ def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
         pass
     else:
         mode = stat_result[stat.ST_MODE]
-        if mode & stat.S_IFREG and (mode & stat.S_IRWXO or mode & stat.S_IRWXG):
+        if stat.S_ISREG(mode) and (mode & stat.S_IRWXO or mode & stat.S_IRWXG):
             perms = mode & 0o777
             print(
                 f"Warning: The file permissions ({perms:o}) indicate that other users may have access to the output.",
-- 
2.43.0


From 3117429e85c9c7ac8a931069b84ff7bad7eaa833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 19/34] fix: reject malformed scrypt work factors

---
 src/age/recipients/scrypt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/scrypt.py b/src/age/recipients/scrypt.py
index 0374461..386758b 100644
--- a/src/age/recipients/scrypt.py
+++ b/src/age/recipients/scrypt.py
@@ -25,7 +25,11 @@ class SCryptRecipient(Recipient):
 
     @classmethod
     def load(cls, args: typing.List[str], body: str):
-        return cls(decode(args[0]), int(args[1]), decode(body))
+        log_cost = int(args[1])
+        # int() also accepts e.g. "+18", "018", "1_8" and other digits
+        if str(log_cost) != args[1]:
+            raise ValueError("Malformed scrypt cost")
+        return cls(decode(args[0]), log_cost, decode(body))
 
     def dump(self) -> typing.Tuple[typing.List[str], str]:
         return [encode(self.salt), str(self.log_cost)], encode(self.encrypted_file_key)
-- 
2.43.0


From 29fcad1ba819a9cfeb6188b8cb1255ce277ca12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 20/34] fix: reject excess padding in ASCII armor

---
 src/age/utils/asciiarmor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 5a89979..e38a6a7 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -53,7 +53,12 @@ def read_ascii_armored(
                             elif len(buffer_line) < PEM_LINE_LENGTH and i != len(buffer) - 1:
                                 raise ValueError("PEM line too short")
 
-                    data = base64.b64decode("".join(buffer), validate=True)
+                    encoded = "".join(buffer)
+                    # b64decode() tolerates padding after complete data
+                    if len(encoded) % 4 != 0 or encoded.endswith("==="):
+                        raise ValueError("incorrect base64 padding")
+
+                    data = base64.b64decode(encoded, validate=True)
                     yield (in_label, data)
 
                     in_label = None
-- 
2.43.0


From cdb3820ec9c7cb435a0b7e6a9d202fd6058bee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 21/34] fix: reject contradictory Ed25519 key files

---
 src/age/openssh_keys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 941417a..02e0020 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -9,6 +9,7 @@ from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed25519, rsa
 from cryptography.hazmat.primitives.ciphers import Cipher
 from cryptography.hazmat.primitives.ciphers import algorithms as cipher_algos
 from cryptography.hazmat.primitives.ciphers import modes as cipher_modes
+from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
 
 from age.utils.asciiarmor import read_ascii_armored
 
@@ -127,7 +128,10 @@ def _deserialize_ed25519_private_key(stream: typing.BinaryIO) -> ed25519.Ed25519
     private_key_bytes = _sshbuf_get_cstring(stream)
     assert len(private_key_bytes) == 64
     assert private_key_bytes[32:] == public_key_bytes
-    return ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
+    key = ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
+    if key.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw) != public_key_bytes:
+        raise InvalidKeyFile("Ed25519 public key does not belong to the private key")
+    return key
 
 
 def _decrypt_key(
-- 
2.43.0


From a024b2858e00ed547e4f887d7a6cfdf7e57c51bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 22/34] fix: reject OpenSSH keys with truncated fields

---
 src/age/openssh_keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 02e0020..df316a2 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -39,7 +39,10 @@ def _read_struct(stream: typing.BinaryIO, fmt: str) -> tuple:
 
 def _sshbuf_get_cstring(stream: typing.BinaryIO) -> bytes:
     (length,) = _read_struct(stream, ">I")  # read data in the format: 32-bit length, data[length]
-    return stream.read(length)
+    data = stream.read(length)
+    if len(data) != length:
+        raise InvalidKeyFile("Private key truncated")
+    return data
 
 
 def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
-- 
2.43.0


From 3439164a4c4c39ac5a0517602efc19050bfeaf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 23/34] fix: find SSH keys below directories with special
 characters

---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 8f6079d..c6c46e0 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -70,7 +70,7 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
 
     keys = []
 
-    for filename in glob.glob(os.path.join(root, "id_*")):
+    for filename in glob.glob(os.path.join(glob.escape(root), "id_*")):
         try:
             key = load_ssh_private_key(filename)
         except Exception as e:
-- 
2.43.0


From 812c318466d03bf5598869c19892f2f5bf6e2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:09 +0000
Subject: [PATCH 24/34] fix: prompt for the passphrase on standard error

---
 src/age/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9dba1bf..fa6400c 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -89,7 +89,7 @@ def encrypt(
                 + "the message content and recipient list.",
                 file=sys.stderr,
             )
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
@@ -149,7 +149,7 @@ def decrypt(
         keys.extend(load_keys_txt(keyfile))
 
     if ask_password:
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
-- 
2.43.0


From b7ca8c62ce477bfea2a66a8e045e1ed241d00f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 25/34] fix: write key files completely to unbuffered output

---
 src/age/cli.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index fa6400c..dda9d79 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -29,6 +29,16 @@ def _write_all(stream: typing.BinaryIO, data: bytes) -> None:
         written = stream.write(data)
 
 
+def _write_text(stream: typing.TextIO, text: str) -> None:
+    """Write all of `text`, text streams ignore partial writes to unbuffered streams"""
+    buffer = getattr(stream, "buffer", None)
+    if isinstance(buffer, io.RawIOBase):
+        stream.flush()
+        _write_all(buffer, text.encode(stream.encoding))  # type: ignore
+    else:
+        stream.write(text)
+
+
 def encrypt(
     recipients: typing.Optional[typing.List[str]] = None,
     infile: typing.Optional[typing.BinaryIO] = None,
@@ -179,9 +189,9 @@ def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
     key = AgePrivateKey.generate()
 
     now = datetime.now()
-    outfile.write(f"# created: {now:%Y-%m-%dT%H:%M:%S}\n")
-    outfile.write("# " + key.public_key().public_string() + "\n")
-    outfile.write(key.private_string() + "\n")
+    _write_text(outfile, f"# created: {now:%Y-%m-%dT%H:%M:%S}\n")
+    _write_text(outfile, "# " + key.public_key().public_string() + "\n")
+    _write_text(outfile, key.private_string() + "\n")
 
     # check permissions if the key is stored in a file
     try:
-- 
2.43.0


From 895b7c9f1d73546ac7a2261ccdf8406860b9aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 26/34] fix: refuse X25519 scalars and points of a wrong length

---
 src/age/primitives/x25519.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/age/primitives/x25519.py b/src/age/primitives/x25519.py
index 7a4be3d..23be26f 100644
--- a/src/age/primitives/x25519.py
+++ b/src/age/primitives/x25519.py
@@ -15,6 +15,12 @@ ECPoint = typing.NewType("ECPoint", bytes)
 """Curve25519 point (commonly called `P`), as bytes instance of length 32"""
 
 
+def _check_length(value: bytes) -> None:
+    # the bindings do not check the length: they would read beyond the end of shorter values
+    if len(value) != 32:
+        raise ValueError("X25519 scalars and points are 32 bytes long")
+
+
 def x25519_scalarmult(secret_scalar: ECScalar, point: ECPoint) -> ECPoint:
     """Scalar multiplication of ``point`` with (secret) ``scalar``
 
@@ -23,6 +29,9 @@ def x25519_scalarmult(secret_scalar: ECScalar, point: ECPoint) -> ECPoint:
     :returns: New point on curve: :math:`nP = P + P + P + P + P + \\text{...}` (`n` times)
     """
 
+    _check_length(secret_scalar)
+    _check_length(point)
+
     k = crypto_scalarmult(secret_scalar, point)
     assert any(k), "All-zeros-check failed (see RFC 7748, section 6.1)"
     return ECPoint(k)
@@ -38,6 +47,8 @@ def x25519_scalarmult_base(scalar: ECScalar) -> ECPoint:
     :returns: Point on curve, commonly interpreted as public key (if `n` is the private key)
     """
 
+    _check_length(scalar)
+
     return ECPoint(crypto_scalarmult_base(scalar))
 
 
-- 
2.43.0


From 3f33138a1674c9885cd8590f65bf6dc492d765ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 27/34] fix: require the exact version line at the start of a
 file

---
 src/age/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/format.py b/src/age/format.py
index b5f64b4..567d643 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -40,7 +40,7 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
     first_line = stream.readline()
     authenticated_bytes = first_line
 
-    if first_line.strip().decode("utf-8", "replace") != AGE_INTRO:
+    if first_line.decode("utf-8", "replace") != AGE_INTRO + "\n":
         raise ParserError("File signature not found.")
 
     header = Header()
-- 
2.43.0


From c26e5bccd23e92b072c7aecd387af50662e6ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 28/34] fix: read long headers in linear time

---
 src/age/format.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/age/format.py b/src/age/format.py
index 567d643..be69533 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -38,12 +38,13 @@ AEAD = "ChaChaPoly"
 
 def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
     first_line = stream.readline()
-    authenticated_bytes = first_line
+    authenticated_lines = [first_line]
 
     if first_line.decode("utf-8", "replace") != AGE_INTRO + "\n":
         raise ParserError("File signature not found.")
 
     header = Header()
+    body_lines: typing.List[typing.List[str]] = []
 
     line = ""
     for raw_line in stream:
@@ -52,12 +53,16 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
         if line.startswith(RECIPIENT_PREFIX):
             type, *args = line[len(RECIPIENT_PREFIX) :].split()
             header.recipients.append(Recipient(type, args))
+            body_lines.append([])
         elif line.startswith(FOOTER_PREFIX):
-            authenticated_bytes += FOOTER_PREFIX.encode("utf-8")
+            authenticated_lines.append(FOOTER_PREFIX.encode("utf-8"))
             break
         elif len(header.recipients) > 0:
-            header.recipients[-1].body += line.strip()
-        authenticated_bytes += raw_line
+            body_lines[-1].append(line.strip())
+        authenticated_lines.append(raw_line)
+
+    for recipient, lines in zip(header.recipients, body_lines):
+        recipient.body = "".join(lines)
 
     assert line.startswith(FOOTER_PREFIX)
     prefix, encoded_mac = line.split()
@@ -68,7 +73,7 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
     if line.rstrip("\n") != FOOTER_PREFIX + " " + encode(mac):
         raise ParserError("Malformed header footer.")
 
-    header.authenticated_bytes = authenticated_bytes
+    header.authenticated_bytes = b"".join(authenticated_lines)
 
     return header, mac
 
-- 
2.43.0


From 76d34bd4711fd2f576651c803b3d019ff02f31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 29/34] fix: process long payloads in linear time

---
 src/age/stream.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 55e308a..e6a60b6 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -25,14 +25,14 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     aead = ChaCha20Poly1305(key)
     blocks = max(1, math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE))
 
-    encrypted = b""
+    encrypted = []
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
         last_block = nonce == blocks - 1
         packed_nonce = _pack_nonce(nonce, last_block=last_block)
 
-        encrypted += aead.encrypt(nonce=packed_nonce, data=block, associated_data=None)
+        encrypted.append(aead.encrypt(nonce=packed_nonce, data=block, associated_data=None))
 
-    return encrypted
+    return b"".join(encrypted)
 
 
 def stream_decrypt(key: bytes, data: bytes) -> bytes:
@@ -41,11 +41,11 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     aead = ChaCha20Poly1305(key)
     blocks = max(1, math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE))
 
-    decrypted = b""
+    decrypted = []
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
         last_block = nonce == blocks - 1
         packed_nonce = _pack_nonce(nonce, last_block=last_block)
 
-        decrypted += aead.decrypt(nonce=packed_nonce, data=block, associated_data=None)
+        decrypted.append(aead.decrypt(nonce=packed_nonce, data=block, associated_data=None))
 
-    return decrypted
+    return b"".join(decrypted)
-- 
2.43.0


From 28e6b57ab8a131171765e8d2823897ca5377a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 30/34] fix: never take the data for the passphrase

Without a terminal the prompt reads from the standard input. If that is also
the data, its first line became the passphrase and the rest was lost in the
read-ahead of the text layer: encrypt wrote an incomplete (often empty)
plaintext and reported success.
---
 src/age/cli.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index dda9d79..979c416 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -39,6 +39,25 @@ def _write_text(stream: typing.TextIO, text: str) -> None:
         stream.write(text)
 
 
+def _is_standard_input(infile: typing.BinaryIO) -> bool:
+    try:
+        return os.path.sameopenfile(infile.fileno(), sys.stdin.fileno())
+    except (AttributeError, OSError):
+        return False
+
+
+def _ask_passphrase(infile: typing.BinaryIO) -> bytes:
+    """Prompt for the passphrase"""
+    stdin = sys.stdin
+    if _is_standard_input(infile) and not stdin.isatty():
+        # without a terminal, the prompt would take (and swallow) the data for the passphrase
+        sys.stdin = io.StringIO()
+    try:
+        return click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
+    finally:
+        sys.stdin = stdin
+
+
 def encrypt(
     recipients: typing.Optional[typing.List[str]] = None,
     infile: typing.Optional[typing.BinaryIO] = None,
@@ -99,8 +118,7 @@ def encrypt(
                 + "the message content and recipient list.",
                 file=sys.stderr,
             )
-        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
-        keys.append(PasswordKey(password))
+        keys.append(PasswordKey(_ask_passphrase(infile)))
 
     if not keys:
         print("You must specify at least one recipient.", file=sys.stderr)
@@ -159,8 +177,7 @@ def decrypt(
         keys.extend(load_keys_txt(keyfile))
 
     if ask_password:
-        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
-        keys.append(PasswordKey(password))
+        keys.append(PasswordKey(_ask_passphrase(infile)))
 
     if not keys:
         print("No keys loaded.", file=sys.stderr)
-- 
2.43.0


From 525d41b1438f3ec980b8ad007cc783abf98b936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 31/34] fix: partial writes to (and reads from) unbuffered
 streams were taken for complete

---
 src/age/cli.py              | 17 ++++-------------
 src/age/file.py             | 13 ++++++++-----
 src/age/utils/asciiarmor.py |  9 ++++++---
 src/age/utils/streams.py    | 24 ++++++++++++++++++++++++
 4 files changed, 42 insertions(+), 21 deletions(-)
 create mode 100644 src/age/utils/streams.py

diff --git a/src/age/cli.py b/src/age/cli.py
index 979c416..00fd37f 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -17,16 +17,7 @@ from age.keys.base import DecryptionKey
 from age.keys.password import PasswordKey
 from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredInput, AsciiArmoredOutput
 from age.utils.copy_doc import copy_doc
-
-
-def _write_all(stream: typing.BinaryIO, data: bytes) -> None:
-    """Write all of `data`, unbuffered streams (e.g. ``python -u``) may accept only a part of it"""
-    written = stream.write(data)
-    while isinstance(stream, io.RawIOBase) and written != len(data):
-        if not written:
-            raise OSError("Could not write the complete output")
-        data = data[written:]
-        written = stream.write(data)
+from age.utils.streams import write_all
 
 
 def _write_text(stream: typing.TextIO, text: str) -> None:
@@ -34,7 +25,7 @@ def _write_text(stream: typing.TextIO, text: str) -> None:
     buffer = getattr(stream, "buffer", None)
     if isinstance(buffer, io.RawIOBase):
         stream.flush()
-        _write_all(buffer, text.encode(stream.encoding))  # type: ignore
+        write_all(buffer, text.encode(stream.encoding))  # type: ignore
     else:
         stream.write(text)
 
@@ -137,7 +128,7 @@ def encrypt(
     if ascii_armored:
         stream.close()
 
-    _write_all(outfile, result.getvalue())
+    write_all(outfile, result.getvalue())
 
 
 def decrypt(
@@ -188,7 +179,7 @@ def decrypt(
         infile = AsciiArmoredInput(AGE_PEM_LABEL, infile)  # type: ignore
 
     with Decryptor(keys, infile) as decryptor:
-        _write_all(outfile, decryptor.read())
+        write_all(outfile, decryptor.read())
 
 
 def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
diff --git a/src/age/file.py b/src/age/file.py
index 11cec7d..a13b0d9 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -10,6 +10,7 @@ from age.primitives.hmac import HMAC
 from age.primitives.random import random
 from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
 from age.stream import stream_decrypt, stream_encrypt
+from age.utils.streams import read_exactly, write_all
 
 __all__ = ["Encryptor", "Decryptor"]
 
@@ -61,17 +62,19 @@ class Encryptor(io.RawIOBase):
         dump_header(header, header_stream, mac=None)
 
         mac = HMAC(self._hkdf(HEADER_HKDF_LABEL)).generate(header_stream.getvalue())
-        dump_header(header, self._stream, mac=mac)
+        header_stream = io.BytesIO()
+        dump_header(header, header_stream, mac=mac)
+        write_all(self._stream, header_stream.getvalue())
 
     def _encrypt_buffer(self):
-        self._stream.write(b"\n")
+        write_all(self._stream, b"\n")
 
         nonce = random(16)
-        self._stream.write(nonce)
+        write_all(self._stream, nonce)
 
         stream_key = self._hkdf(PAYLOAD_HKDF_LABEL, nonce)
         ciphertext = stream_encrypt(stream_key, self._plaintext_buffer)
-        self._stream.write(ciphertext)
+        write_all(self._stream, ciphertext)
 
         self._plaintext_buffer = b""
 
@@ -117,7 +120,7 @@ class Decryptor(io.RawIOBase):
     def _decrypt_body(self):
         assert self._file_key is not None
 
-        nonce = self._stream.read(16)
+        nonce = read_exactly(self._stream, 16)
         assert len(nonce) == 16, "Could not read nonce"
 
         stream_key = self._hkdf(PAYLOAD_HKDF_LABEL, nonce)
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index e38a6a7..388a2fb 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -3,6 +3,8 @@ import io
 import re
 import typing
 
+from age.utils.streams import write_all
+
 START_RE = re.compile(r"^-----BEGIN ([^-]*)-----\n$")
 END_RE = re.compile(r"^-----END ([^-]*)-----\n?$")
 
@@ -88,7 +90,6 @@ def write_ascii_armored(file: typing.TextIO, label: str, data: bytes) -> None:
 class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
     def __init__(self, label: str, stream: typing.BinaryIO):
         self._stream: typing.BinaryIO = stream
-        self._text_stream: typing.TextIO = io.TextIOWrapper(stream, "utf-8")
         self._plaintext_buffer: bytes = b""
         self._label: str = label
 
@@ -106,7 +107,7 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
             try:
                 self._encode_buffer()
                 # flush, and leave the underlying stream open
-                self._text_stream.detach()
+                self._stream.flush()
             finally:
                 super().close()
 
@@ -123,7 +124,9 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         raise NotImplementedError()
 
     def _encode_buffer(self):
-        write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
+        text_stream = io.StringIO()
+        write_ascii_armored(text_stream, self._label, self._plaintext_buffer)
+        write_all(self._stream, text_stream.getvalue().encode("utf-8"))
         self._plaintext_buffer = b""
 
 
diff --git a/src/age/utils/streams.py b/src/age/utils/streams.py
new file mode 100644
index 0000000..e8816c8
--- /dev/null
+++ b/src/age/utils/streams.py
@@ -0,0 +1,24 @@
+import io
+import typing
+
+
+def write_all(stream: typing.BinaryIO, data: bytes) -> None:
+    """Write all of `data`, unbuffered streams (e.g. ``python -u``) may accept only a part of it"""
+    written = stream.write(data)
+    rest = memoryview(data)
+    while isinstance(stream, io.RawIOBase) and written != len(rest):
+        if not written:
+            raise OSError("Could not write the complete output")
+        rest = rest[written:]
+        written = stream.write(rest)
+
+
+def read_exactly(stream: typing.BinaryIO, size: int) -> bytes:
+    """Read `size` bytes (fewer at the end), unbuffered streams may return only a part of them"""
+    data = b""
+    while len(data) < size:
+        part = stream.read(size - len(data))
+        if not part:
+            break
+        data += part
+    return data
-- 
2.43.0


From d27312f599e4b29fbc688986c1c836e5847fad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 32/34] fix: reading ASCII armor closed the caller's stream

---
 src/age/utils/asciiarmor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 388a2fb..0faa13f 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -137,7 +137,11 @@ class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
         self._plaintext_stream: typing.Optional[typing.BinaryIO] = None
         self._label: str = label
 
-        self._decode_body()
+        try:
+            self._decode_body()
+        finally:
+            # leave the underlying stream open
+            self._text_stream.detach()
 
     def readable(self):
         return True
-- 
2.43.0


From b16567f7c33cbbd49a50520aca85673c0ae486dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 33/34] fix: contradictory Ed25519 key files were accepted when
 assertions are disabled (python -O)

---
 src/age/openssh_keys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index df316a2..a5a4ff9 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -126,11 +126,15 @@ def _deserialize_ecdsa_private_key(stream: typing.BinaryIO) -> ec.EllipticCurveP
 
 def _deserialize_ed25519_private_key(stream: typing.BinaryIO) -> ed25519.Ed25519PrivateKey:
     # <32-bit public key> <64-bit: private key || public key>
+    # (no assertions, they are not checked with `python -O`)
     public_key_bytes = _sshbuf_get_cstring(stream)
-    assert len(public_key_bytes) == 32
+    if len(public_key_bytes) != 32:
+        raise InvalidKeyFile("Ed25519 public key has the wrong length")
     private_key_bytes = _sshbuf_get_cstring(stream)
-    assert len(private_key_bytes) == 64
-    assert private_key_bytes[32:] == public_key_bytes
+    if len(private_key_bytes) != 64:
+        raise InvalidKeyFile("Ed25519 private key has the wrong length")
+    if private_key_bytes[32:] != public_key_bytes:
+        raise InvalidKeyFile("Ed25519 public keys contradict each other")
     key = ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
     if key.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw) != public_key_bytes:
         raise InvalidKeyFile("Ed25519 public key does not belong to the private key")
-- 
2.43.0


From 39d6596e86035f04523df0147c0c8d39092d910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 34/34] fix: generate to standard output (-o -) lost the end of
 the key unnoticed when unbuffered

click wraps an unbuffered standard output once more if its error handler is not
'strict' (e.g. in the C locale), so partial writes were taken for complete.
---
 src/age/cli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 00fd37f..97699f8 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -23,9 +23,15 @@ from age.utils.streams import write_all
 def _write_text(stream: typing.TextIO, text: str) -> None:
     """Write all of `text`, text streams ignore partial writes to unbuffered streams"""
     buffer = getattr(stream, "buffer", None)
-    if isinstance(buffer, io.RawIOBase):
+    if buffer is not None and not isinstance(buffer, io.BufferedIOBase):
+        # either a raw stream, or one that click wrapped once more (`-o -`)
         stream.flush()
-        write_all(buffer, text.encode(stream.encoding))  # type: ignore
+        rest = memoryview(text.encode(stream.encoding))
+        while rest:
+            written = buffer.write(rest)
+            if not written:
+                raise OSError("Could not write the complete output")
+            rest = rest[written:]
     else:
         stream.write(text)
 
-- 
2.43.0

