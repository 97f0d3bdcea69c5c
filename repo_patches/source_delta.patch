From 256baeb67345ba5fbe3554f80bef010c20d9fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 01/10] fix: keep leading zero bytes of masked blocks and
 derived keys

---
 bip38/bip38.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index b24b245..eba0708 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -209,10 +209,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16])
+            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
+            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
         ))
 
         encrypted_private_key: bytes = (
@@ -316,10 +316,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_wif: str = ensure_string(check_encode((
             integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX) +
@@ -331,10 +331,10 @@ class BIP38:
             (bytes_to_integer(scrypt_hash[63:]) & 1) ^ bytes_to_integer(point_b[:1])
         )
         point_b_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1), 16
         ))
         point_b_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_point_b: bytes = (
             point_b_prefix + point_b_half_1 + point_b_half_2
@@ -425,10 +425,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         point_b_half_1: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
+            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
         )
         point_b_half_2: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32])
+            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32]), 16
         )
         point_b_prefix: bytes = integer_to_bytes(
             bytes_to_integer(encrypted_point_b[:1]) ^ (bytes_to_integer(scrypt_hash[63:]) & 1)
@@ -541,7 +541,7 @@ class BIP38:
             decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
 
             private_key: bytes = integer_to_bytes(
-                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1)
+                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                 raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
@@ -597,7 +597,7 @@ class BIP38:
 
             aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
             encrypted_half_1_half_2_seed_b_last_3 = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32])
+                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32]), 16
             )
             encrypted_half_1_half_2: bytes = encrypted_half_1_half_2_seed_b_last_3[:8]
             encrypted_half_1: bytes = (
@@ -605,7 +605,7 @@ class BIP38:
             )
 
             seed_b: bytes = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16])
+                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
             ) + encrypted_half_1_half_2_seed_b_last_3[8:]
 
             factor_b: bytes = double_sha256(seed_b)
@@ -614,7 +614,7 @@ class BIP38:
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N
+                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32
             )
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             wif_type: Literal["wif", "wif-compressed"] = "wif"
-- 
2.43.0


From 5de2485d39cbc230d1b2d43c7bf5f62e2298bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 02/10] fix: honour or refuse lot and sequence numbers that are
 zero

---
 bip38/bip38.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index eba0708..a10552b 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -124,10 +124,10 @@ class BIP38:
             raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
         if len(owner_salt) == 4 and (lot is None or sequence is None):
             raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
-        if (lot and sequence is None) or (lot is None and sequence):
+        if (lot is None) != (sequence is None):
             raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
 
-        if lot and sequence:
+        if lot is not None and sequence is not None:
             lot, sequence = int(lot), int(sequence)
             if not 100000 <= lot <= 999999:
                 raise Error("Invalid lot", expected="100000 <= lot <= 999999", got=lot)
-- 
2.43.0


From 21a1ffa0b08b02d2c68b2dbadb765e9e5f741420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 03/10] fix: refuse seeds that are not 24 bytes long

---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index a10552b..aa4918e 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -261,6 +261,8 @@ class BIP38:
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
         seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
+        if len(seed_b) != 24:
+            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
         try:
             intermediate_decode: bytes = check_decode(intermediate_passphrase)
         except ValueError:
-- 
2.43.0


From 98b4e3e291544b75ccec5ed05766bf3fc037c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 04/10] fix: refuse characters outside the Base58 alphabet

---
 bip38/bip38.py       | 5 ++++-
 bip38/libs/base58.py | 5 ++++-
 bip38/wif.py         | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index aa4918e..18abca7 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -507,7 +507,10 @@ class BIP38:
         )
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
-        encrypted_wif_decode: bytes = decode(encrypted_wif)
+        try:
+            encrypted_wif_decode: bytes = decode(encrypted_wif)
+        except ValueError:
+            raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
 
diff --git a/bip38/libs/base58.py b/bip38/libs/base58.py
index dd0f95f..5968b2d 100644
--- a/bip38/libs/base58.py
+++ b/bip38/libs/base58.py
@@ -51,7 +51,10 @@ def decode(data, alphabet=__base58_alphabet):
     val = 0
     prefix = 0
     for c in data:
-        val = (val * len(alphabet)) + alphabet.encode("utf-8").find(c)
+        digit = alphabet.encode("utf-8").find(c)
+        if digit == -1:
+            raise ValueError("Invalid base58 character")
+        val = (val * len(alphabet)) + digit
         if val == 0:
             prefix += 1
 
diff --git a/bip38/wif.py b/bip38/wif.py
index 83b8a06..b287b21 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -71,7 +71,10 @@ def decode_wif(
     :rtype: Tuple[bytes, str, bytes]
     """
 
-    raw: bytes = decode(wif)
+    try:
+        raw: bytes = decode(wif)
+    except ValueError:
+        raise WIFError(f"Invalid Wallet Import Format (WIF)")
     if not raw.startswith(integer_to_bytes(wif_prefix)):
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
 
-- 
2.43.0


From ea618f0f2e2ab1a322d1460c91e9a08211af81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 05/10] fix: verify the checksum of a WIF when decoding it

---
 bip38/wif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index b287b21..6a3a2a8 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -86,6 +86,8 @@ def decode_wif(
     raw_without_prefix: bytes = raw[prefix_length:]
     checksum: bytes = raw_without_prefix[-1 * 4:]
     private_key: bytes = raw_without_prefix[:-1 * 4]
+    if get_checksum(raw[:-1 * 4]) != checksum:
+        raise WIFError("Invalid WIF checksum")
     wif_type: str = "wif"
 
     if len(private_key) not in [33, 32]:
-- 
2.43.0


From 79f02b0a04da8a107ef05203e4d4fcc3810e489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 06/10] fix: require the 01 marker in a compressed WIF

---
 bip38/wif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index 6a3a2a8..c500830 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -93,6 +93,8 @@ def decode_wif(
     if len(private_key) not in [33, 32]:
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
     elif len(private_key) == 33:
+        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
+            raise WIFError(f"Invalid Wallet Import Format (WIF)")
         private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
         wif_type = "wif-compressed"
 
-- 
2.43.0


From e126c5a270a491b0484885e3cdea823c40d50342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 07/10] fix: verify the checksum of an encrypted WIF before
 decrypting it

---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 18abca7..895efb7 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -513,6 +513,8 @@ class BIP38:
             raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
+        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
+            raise WIFError("Invalid encrypted WIF checksum")
 
         prefix: bytes = encrypted_wif_decode[:2]
         flag: bytes = encrypted_wif_decode[2:3]
-- 
2.43.0


From a33c9948705299260e549950afe8ddcfa2ae35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 08/10] fix: refuse illegal flags of EC-multiplied records and
 confirmation codes

---
 bip38/bip38.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 895efb7..2379f9a 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -406,6 +406,8 @@ class BIP38:
         address_hash: bytes = confirmation_code_decode[6:10]
         owner_entropy: bytes = confirmation_code_decode[10:18]
         encrypted_point_b: bytes = confirmation_code_decode[18:]
+        if bytes_to_integer(flag) not in FLAGS["ec"]:
+            raise Error("Invalid flag", got=bytes_to_string(flag))
 
         lot_and_sequence: Optional[bytes] = None
         if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
@@ -583,6 +585,8 @@ class BIP38:
             owner_entropy: bytes = encrypted_wif_decode[7:15]
             encrypted_half_1_half_1: bytes = encrypted_wif_decode[15:23]
             encrypted_half_2: bytes = encrypted_wif_decode[23:-4]
+            if bytes_to_integer(flag) not in FLAGS["ec"]:
+                raise Error("Invalid flag", got=bytes_to_string(flag))
 
             lot_and_sequence: Optional[bytes] = None
             if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
-- 
2.43.0


From 93c34b30da834e276ccf9ed2d57446200e8bc1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 09/10] fix: refuse bytes and coordinates that are not a
 secp256k1 point

---
 bip38/secp256k1/point.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 1f69c71..3eaef5d 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -44,11 +44,10 @@ class Point:
         """
 
         try:
-            return cls(
-                PointJacobi.from_bytes(
-                    curve_secp256k1, point
-                )
+            point_obj: PointJacobi = PointJacobi.from_bytes(
+                curve_secp256k1, point
             )
+            return cls.from_coordinates(point_obj.x(), point_obj.y())
         except keys.MalformedPointError as ex:
             raise Secp256k1Error("Invalid point key bytes") from ex
         except AttributeError:
@@ -71,6 +70,10 @@ class Point:
         :rtype: IPoint
         """
 
+        if not (
+            0 <= x < curve_secp256k1.p() and 0 <= y < curve_secp256k1.p() and curve_secp256k1.contains_point(x, y)
+        ):
+            raise Secp256k1Error("Invalid point coordinates")
         return cls(
             PointJacobi.from_affine(
                 _Point(curve_secp256k1, x, y)
-- 
2.43.0


From b7a9e70c8edb751e0d9d49297f562fa4d9684e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:06 +0000
Subject: [PATCH 10/10] fix: refuse raw points that are not 64 bytes with older
 ecdsa

---
 bip38/secp256k1/point.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 3eaef5d..6292855 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -51,6 +51,8 @@ class Point:
         except keys.MalformedPointError as ex:
             raise Secp256k1Error("Invalid point key bytes") from ex
         except AttributeError:
+            if len(point) != COORDINATE_POINT_LENGTH * 2:
+                raise Secp256k1Error("Invalid point key bytes")
             return cls.from_coordinates(
                 bytes_to_integer(point[:COORDINATE_POINT_LENGTH]),
                 bytes_to_integer(point[COORDINATE_POINT_LENGTH:])
-- 
2.43.0

