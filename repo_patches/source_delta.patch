From b0e3c08f78d3cca3a568412bcd6b688214ea2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 01/58] fix: MMR slices with start beyond stop are empty

---
 lib/python-proofmarshal/proofmarshal/mmr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/mmr.py b/lib/python-proofmarshal/proofmarshal/mmr.py
index 4d80439..884f53d 100644
--- a/lib/python-proofmarshal/proofmarshal/mmr.py
+++ b/lib/python-proofmarshal/proofmarshal/mmr.py
@@ -419,6 +419,10 @@ def make_mmr_subclass(subclass):
                 if step != 1:
                     raise NotImplementedError
 
+                if start >= stop:
+                    # Nothing is in the slice range.
+                    return self.EmptyNodeClass()
+
                 if start <= 0 and stop >= len(self):
                     # We satisfy the slice without modification, so return
                     # ourselves
-- 
2.43.0


From 26846121967d296caefd577a5b6191963581358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 02/58] fix: an unknown union class number is a
 DeserializationError, not a NameError

---
 lib/python-proofmarshal/proofmarshal/proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index faa8741..17341f5 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -13,7 +13,7 @@ import binascii
 import copy
 import hashlib
 
-from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, SerializerTypeError, HashTag
+from proofmarshal.serialize import HashingSerializer, BytesSerializationContext, DeserializationError, SerializerTypeError, HashTag
 
 """Proof representation
 
-- 
2.43.0


From 156ea309a703f3674be3e526db035bdb360f76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 03/58] fix: attributes of a Proof class don't depend on which
 classes were instantiated before

SERIALIZED_ATTRS_BY_NAME was only set on instantiation, and inherited from an
already instantiated base class; a deserialized fully pruned proof of a class
never instantiated raised TypeError rather than PrunedError.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 17341f5..6acff7a 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -43,7 +43,7 @@ class Proof(HashingSerializer):
 
     def __new__(cls, **kwargs):
         """Basic creation/initialization"""
-        if cls.SERIALIZED_ATTRS_BY_NAME is None:
+        if cls.__dict__.get('SERIALIZED_ATTRS_BY_NAME') is None:
             cls.SERIALIZED_ATTRS_BY_NAME = {name:ser_cls for name, ser_cls in cls.SERIALIZED_ATTRS}
 
         is_pruned = False
@@ -120,7 +120,7 @@ class Proof(HashingSerializer):
         if self.__orig_instance is None:
             # Don't have the original instance. Is this an attribute we should
             # have?
-            if name in self.SERIALIZED_ATTRS_BY_NAME:
+            if name in [attr_name for attr_name, ser_cls in self.SERIALIZED_ATTRS]:
                 # FIXME: raise pruning error
                 raise PrunedError(name, self)
             else:
-- 
2.43.0


From 45a0db1920f54069bc41d768b3533185c2666924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 04/58] fix: is_pruned takes ProofUnion attributes into account

---
 lib/python-proofmarshal/proofmarshal/proof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 6acff7a..87932f3 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -53,7 +53,8 @@ class Proof(HashingSerializer):
             ser_cls.check_instance(value)
             object.__setattr__(self, name, value)
 
-            if issubclass(ser_cls, Proof):
+            # Not just ser_cls being a Proof; ProofUnion's contain proofs too
+            if isinstance(value, Proof):
                 is_pruned |= value.is_pruned
 
         object.__setattr__(self, 'is_fully_pruned', False)
-- 
2.43.0


From 365b897d882b3190830f0f156530fb4c5b0849be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 05/58] fix: fully pruned VarProof's keep their variant when
 serialized

Without the variant a fully pruned node of an MMR, merbinner tree or GuMap
deserialized as an instance of the base class: its hash was wrong (or
uncomputable) and it was not accepted as a child of another node, so no
partially pruned MMR/merbinner tree/GuMap proof could be deserialized.
---
 lib/python-proofmarshal/proofmarshal/proof.py | 55 +++++++++++++------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/proof.py b/lib/python-proofmarshal/proofmarshal/proof.py
index 87932f3..53e7d46 100644
--- a/lib/python-proofmarshal/proofmarshal/proof.py
+++ b/lib/python-proofmarshal/proofmarshal/proof.py
@@ -185,10 +185,13 @@ class Proof(HashingSerializer):
             attr = getattr(self, attr_name)
             ser_cls.ctx_serialize(attr, ctx)
 
+    def _ctx_serialize_pruned(self, ctx):
+        ctx.write_bytes(self.data_hash)
+
     def ctx_serialize(self, ctx):
         if self.is_fully_pruned:
             ctx.write_bool(True)
-            ctx.write_bytes(self.data_hash)
+            self._ctx_serialize_pruned(ctx)
 
         else:
             ctx.write_bool(False)
@@ -212,20 +215,24 @@ class Proof(HashingSerializer):
         return Proof.__new__(cls, **kwargs)
 
     @classmethod
-    def ctx_deserialize(cls, ctx):
-        fully_pruned = ctx.read_bool()
+    def _ctx_deserialize_pruned(cls, ctx):
+        self = object.__new__(cls)
 
-        if fully_pruned:
-            self = object.__new__(cls)
+        data_hash = ctx.read_bytes(32) # FIXME
+        object.__setattr__(self, 'data_hash', data_hash)
 
-            data_hash = ctx.read_bytes(32) # FIXME
-            object.__setattr__(self, 'data_hash', data_hash)
+        object.__setattr__(self, 'is_fully_pruned', True)
+        object.__setattr__(self, 'is_pruned', True)
+        object.__setattr__(self, '_Proof__orig_instance', None)
 
-            object.__setattr__(self, 'is_fully_pruned', True)
-            object.__setattr__(self, 'is_pruned', True)
-            object.__setattr__(self, '_Proof__orig_instance', None)
+        return self
+
+    @classmethod
+    def ctx_deserialize(cls, ctx):
+        fully_pruned = ctx.read_bool()
 
-            return self
+        if fully_pruned:
+            return cls._ctx_deserialize_pruned(ctx)
 
         else:
             return cls._ctx_deserialize(ctx)
@@ -267,7 +274,7 @@ class VarProof(Proof):
 
         return subclass
 
-    def _ctx_serialize(self, ctx):
+    def _ctx_serialize_variant(self, ctx):
         for i,cls in enumerate(self.UNION_CLASSES):
             if isinstance(self, cls):
                 ctx.write_varuint(i)
@@ -276,20 +283,36 @@ class VarProof(Proof):
         else:
             raise SerializerTypeError('bad class')
 
-        super()._ctx_serialize(ctx)
-
     @classmethod
-    def _ctx_deserialize(cls, ctx):
+    def _ctx_deserialize_variant(cls, ctx):
         i = ctx.read_varuint()
 
         try:
-            union_cls = cls.UNION_CLASSES[i]
+            return cls.UNION_CLASSES[i]
         except IndexError:
             # FIXME: nicer error message
             raise DeserializationError('bad union class number %d' % i)
 
+    def _ctx_serialize(self, ctx):
+        self._ctx_serialize_variant(ctx)
+        super()._ctx_serialize(ctx)
+
+    def _ctx_serialize_pruned(self, ctx):
+        # The hash depends on the variant, so it's needed even if the rest of
+        # the proof is pruned away.
+        self._ctx_serialize_variant(ctx)
+        super()._ctx_serialize_pruned(ctx)
+
+    @classmethod
+    def _ctx_deserialize(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
         return super(VarProof, union_cls)._ctx_deserialize(ctx)
 
+    @classmethod
+    def _ctx_deserialize_pruned(cls, ctx):
+        union_cls = cls._ctx_deserialize_variant(ctx)
+        return super(VarProof, union_cls)._ctx_deserialize_pruned(ctx)
+
 class ProofUnion(HashingSerializer):
     """Serialization of disjoint unions of proof classes
 
-- 
2.43.0


From bd6ec630d1958289a536be886b414a8fca121853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 06/58] fix: read_bytes() without a length raised TypeError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f81a34d..e852bcd 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -214,7 +214,7 @@ class StreamDeserializationContext(DeserializationContext):
 
     def read_bytes(self, expected_length=None):
         if expected_length is None:
-            expected_length = self.read_varuint(None)
+            expected_length = self.read_varuint()
         return self.fd_read(expected_length)
 
     def read_obj(self, serialization_class):
-- 
2.43.0


From 90a935cb3a3b419058f3e957525ac2d53d94ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 07/58] fix: deserialize() rejects junk after the end of the
 object

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index e852bcd..f972f04 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -65,6 +65,9 @@ class DeserializationError(Exception):
 class TruncationError(DeserializationError):
     """Truncated data encountered while deserializing"""
 
+class TrailingDataError(DeserializationError):
+    """Extra data after the end of a serialized object"""
+
 
 class SerializerTypeError(TypeError):
     """Wrong type for specified serializer"""
@@ -234,7 +237,10 @@ class BytesDeserializationContext(StreamDeserializationContext):
         """Deserialize from bytes"""
         super().__init__(io.BytesIO(buf))
 
-    # FIXME: need to check that there isn't extra crap at end of object
+    def assert_eof(self):
+        """Check that everything has been read"""
+        if self.fd.read(1):
+            raise TrailingDataError('Extra data after the end of the serialized object')
 
 class Serializer:
     """(De)serialize an instance of a class
@@ -278,7 +284,7 @@ class Serializer:
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
         r = cls.ctx_deserialize(ctx)
-        # FIXME: check for junk at end
+        ctx.assert_eof()
         return r
 
 class SerBool(Serializer):
-- 
2.43.0


From 39ff3e62436853ba5b883f737bfe6c4c05767d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 08/58] fix: read_varuint() rejects non-minimal encodings

Serialization is meant to be deterministic: one encoding per value.
---
 lib/python-proofmarshal/proofmarshal/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index f972f04..9eb49a6 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -213,6 +213,10 @@ class StreamDeserializationContext(DeserializationContext):
                 break
             shift += 7
 
+        if shift and not b:
+            # Every integer must have exactly one encoding
+            raise DeserializationError('varuint not minimally encoded')
+
         return value
 
     def read_bytes(self, expected_length=None):
-- 
2.43.0


From e4fafeef4837306dd0a807abe8dbc4dd9ab3d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 09/58] fix: BitsSerializer.check_instance() raises
 SerializerTypeError

The callers ignore its return value, so anything was accepted.
---
 lib/python-proofmarshal/proofmarshal/bits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 19f620f..7ce90da 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -295,7 +295,8 @@ class Bits:
 class BitsSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, instance):
-        return instance.__class__ is Bits
+        if instance.__class__ is not Bits:
+            raise proofmarshal.serialize.SerializerTypeError('Expected Bits; got %r' % instance.__class__)
 
     @classmethod
     def ctx_serialize(cls, value, ctx):
-- 
2.43.0


From 01daef8c4e5dac5498266c7665586f0dc756b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 10/58] fix: BitsSerializer can deserialize lengths that are
 multiples of eight

Including the empty Bits. Non-zero padding now raises DeserializationError.
---
 lib/python-proofmarshal/proofmarshal/bits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index 7ce90da..ed75e79 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -312,7 +312,7 @@ class BitsSerializer(proofmarshal.serialize.Serializer):
         length = ctx.read_varuint()
         buf = ctx.read_bytes(length // 8 + (1 if length % 8 else 0))
         r = Bits.from_bytes(buf, length)
-        # FIXME: should throw a serialization exception
-        assert r._Bits__tail_bits() == buf[-1]
+        if length % 8 and r._Bits__tail_bits() != buf[-1]:
+            raise proofmarshal.serialize.DeserializationError('Unused bits at end of Bits are not zero')
         return r
 
-- 
2.43.0


From 4ebfc452240a47d7bf3c892e43bbe7ab448794e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 11/58] fix: Bits ordering is a total order consistent with
 equality

Bits([0]) and Bits([0,0]) were neither equal, nor less or greater than each
other, and Bits([1]) < Bits([0]*8).
---
 lib/python-proofmarshal/proofmarshal/bits.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/bits.py b/lib/python-proofmarshal/proofmarshal/bits.py
index ed75e79..f4cb895 100644
--- a/lib/python-proofmarshal/proofmarshal/bits.py
+++ b/lib/python-proofmarshal/proofmarshal/bits.py
@@ -129,17 +129,9 @@ class Bits:
         if self.__class__ is not rhs.__class__:
             return NotImplemented
 
-        self_fwp = self.__full_width_prefix()
-        rhs_fwp = rhs.__full_width_prefix()
-        if self_fwp < rhs_fwp:
-            return True
-
-        elif self_fwp == rhs_fwp:
-            return self.__tail_bits() < rhs.__tail_bits()
-
-        else:
-            return False
-
+        # Lexicographical order, with a prefix sorting before whatever it is a
+        # prefix of.
+        return tuple(self) < tuple(rhs)
 
     def __getitem__(self, idx):
         if isinstance(idx, int):
-- 
2.43.0


From d2d567b866ee34d3070418da727cc6eded5462fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 12/58] fix: check_instance() of the bitcoin serializers raised
 NameError

---
 proofchains/core/bitcoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 03c6a54..fdf9253 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -21,7 +21,7 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.CTransaction):
-            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected CTransaction; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, tx, ctx):
@@ -42,7 +42,7 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     @classmethod
     def check_instance(cls, tx):
         if not isinstance(tx, bitcoin.core.COutPoint):
-            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % value.__class__)
+            raise proofmarshal.serialize.SerializerTypeError('Expected COutPoint; got %r' % tx.__class__)
 
     @classmethod
     def ctx_serialize(cls, outpoint, ctx):
-- 
2.43.0


From e9d3ec2d6cc9cbe8b9a321a4b4638142e3769d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 13/58] fix: hash and txhash of a deserialized, fully pruned,
 TxProof

Raised TypeError, as the data hash of a TxProof didn't commit to the txhash.
---
 proofchains/core/bitcoin.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index fdf9253..3720f0d 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -66,15 +66,20 @@ class TxProof(proofmarshal.proof.Proof):
 
     TX_HASH_XOR_PAD = b'L\xf8\x10\xb7=\xc6\x05\xfb\xe6\xc2\x15jpA\xe3p\xf4u\x0e9\xd2\xd1W1\x99\xc7r\xc72K\xd0T'
 
-    def calc_hash(self):
+    def calc_data_hash(self):
         if self.is_pruned:
-            return super().calc_hash()
+            return super().calc_data_hash()
 
         else:
-            # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
-            # with a fixed pad. This still guarantees global uniqueness, yet
-            # lets us convert the proof hash to a bitcoin hash and back.
-            return bytes([b^p for b,p in zip(self.tx.GetHash(), self.TX_HASH_XOR_PAD)])
+            # Has to be sufficient to calculate the hash, as it's the only
+            # thing left once we're fully pruned.
+            return self.tx.GetHash()
+
+    def calc_hash(self):
+        # Dirty trick: the hash of a TxProof is the Bitcon txhash XOR'd
+        # with a fixed pad. This still guarantees global uniqueness, yet
+        # lets us convert the proof hash to a bitcoin hash and back.
+        return bytes([b^p for b,p in zip(self.data_hash, self.TX_HASH_XOR_PAD)])
 
     @property
     def txhash(self):
-- 
2.43.0


From e54540196bab861f34c9d6aa64a3dc6cb33ca074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 14/58] fix: MerbinnerTree.put() can replace the value of an
 existing key

Failed with an AssertionError.
---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index ce6635d..68965d4 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -152,8 +152,13 @@ class MerbinnerTree(proofmarshal.proof.VarProof):
             return new_leaf
 
         else:
-            # The two leaves are joined by an inner node
-            new_tip = self.InnerNodeClass(new_leaf, closest_node)
+            if closest_node.__class__ is self.LeafNodeClass and closest_node.key == key:
+                # The key is already set; replace the value
+                new_tip = new_leaf
+
+            else:
+                # The two leaves are joined by an inner node
+                new_tip = self.InnerNodeClass(new_leaf, closest_node)
 
             # And we rebuild the inner nodes along the path from the siblings
             for sibling in siblings:
-- 
2.43.0


From f2cee3bdaf60efdb4e910c930f19d8fb08de23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 15/58] fix: a seal witness is only valid for one hash, and
 only if its tx closed the seal

verify_hash() alone, which is all GuMap's verify() uses, accepted a witness
whose transaction had nothing to do with the seal. Any output of the
transaction was accepted as well, so one with two suitable outputs closed a
single-use seal over two different hashes; the tools always use the first one.
---
 proofchains/core/uniquebits/singleuseseal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proofchains/core/uniquebits/singleuseseal.py b/proofchains/core/uniquebits/singleuseseal.py
index 299fd51..4c0d5c7 100644
--- a/proofchains/core/uniquebits/singleuseseal.py
+++ b/proofchains/core/uniquebits/singleuseseal.py
@@ -92,7 +92,15 @@ class BitcoinSealWitness(SingleUseSeal):
         assert self.seal.outpoint == self.txinproof.txin.prevout
         assert self.txinproof.txproof == self.txoutproof.txproof
 
+        # If any output would do the same transaction could close the seal over
+        # more than one hash.
+        assert self.txoutproof.i == 0
+
     def verify_hash(self, hash):
+        # A transaction that doesn't actually spend the seal's outpoint isn't a
+        # witness to anything.
+        self.verify()
+
         assert len(hash) == 32
         # Avoid the consensus issues of parsing the scriptPubKey by generating
         # one ourselves, and then doing a byte-for-byte comparison.
-- 
2.43.0


From 67b3e360b615b808a149207ed48975c0e0ec65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 16/58] fix: making immutable copies of mutable outpoints,
 txins and transactions

Raised NameError and AttributeError.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ce0c093..c05e962 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -154,11 +154,11 @@ class COutPoint(ImmutableSerializable):
     def from_outpoint(cls, outpoint):
         """Create an immutable copy of an existing OutPoint
 
-        If output is already immutable (outpoint.__class__ is COutPoint) it is
+        If outpoint is already immutable (outpoint.__class__ is COutPoint) it is
         returned directly.
         """
-        if output.__class__ is COutPoint:
-            return output
+        if outpoint.__class__ is COutPoint:
+            return outpoint
 
         else:
             return cls(outpoint.hash, outpoint.n)
@@ -218,7 +218,7 @@ class CTxIn(ImmutableSerializable):
             return txin
 
         else:
-            return cls(COutPoint.from_txout(txin.prevout), txin.scriptSig, txin.nSequence)
+            return cls(COutPoint.from_outpoint(txin.prevout), txin.scriptSig, txin.nSequence)
 
 @__make_mutable
 class CMutableTxIn(CTxIn):
-- 
2.43.0


From 46b68cb701a7156cdad5a9ca780adae2186dbaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 17/58] fix: CTxIn makes an immutable copy of a mutable prevout

Otherwise changing the prevout changed the supposedly immutable CTxIn, and the
CTransaction containing it, after their hashes may have been cached.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index c05e962..ae5cd51 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -186,7 +186,8 @@ class CTxIn(ImmutableSerializable):
             raise ValueError('CTxIn: nSequence must be an integer between 0x0 and 0xffffffff; got %x' % nSequence)
         object.__setattr__(self, 'nSequence', nSequence)
 
-        object.__setattr__(self, 'prevout', prevout)
+        # An immutable txin can't have a mutable prevout
+        object.__setattr__(self, 'prevout', COutPoint.from_outpoint(prevout))
         object.__setattr__(self, 'scriptSig', scriptSig)
 
     @classmethod
-- 
2.43.0


From 30f6256966c4347992160b975deed49307999e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 18/58] fix: CheckProofOfWork() rejects negative targets

The sign bit of the compact encoding was taken to be part of the number.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index ae5cd51..eb84237 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -641,8 +641,8 @@ def CheckProofOfWork(hash, nBits):
     """
     target = uint256_from_compact(nBits)
 
-    # Check range
-    if not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):
+    # Check range; 0x00800000 is the sign bit of the compact encoding
+    if (nBits & 0x00800000) or not (0 < target <= coreparams.PROOF_OF_WORK_LIMIT):
         raise CheckProofOfWorkError("CheckProofOfWork() : nBits below minimum work")
 
     # Check proof of work matches claimed amount
-- 
2.43.0


From 60637098b9ee84c8eb37e8e1d42fe86e537018e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 19/58] fix: uint256_from_compact() with less than three bytes

Raised ValueError: negative shift count
---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index feeb7d1..6cce49e 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -311,7 +311,10 @@ def uint256_from_compact(c):
     Used for the nBits compact encoding of the target in the block header.
     """
     nbytes = (c >> 24) & 0xFF
-    v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
+    if nbytes <= 3:
+        v = (c & 0xFFFFFF) >> (8 * (3 - nbytes))
+    else:
+        v = (c & 0xFFFFFF) << (8 * (nbytes - 3))
     return v
 
 
-- 
2.43.0


From d61301306df82035856a3774553b678dcf25ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 20/58] fix: intVectorSerialzer deserialization returned None

---
 lib/python-bitcoinlib/bitcoin/core/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/serialize.py b/lib/python-bitcoinlib/bitcoin/core/serialize.py
index 6cce49e..65a7fce 100644
--- a/lib/python-bitcoinlib/bitcoin/core/serialize.py
+++ b/lib/python-bitcoinlib/bitcoin/core/serialize.py
@@ -279,7 +279,8 @@ class intVectorSerialzer(Serializer):
         l = VarIntSerializer.stream_deserialize(f)
         ints = []
         for i in range(l):
-            ints.append(struct.unpack(b"<i", ser_read(f, 4)))
+            ints.append(struct.unpack(b"<i", ser_read(f, 4))[0])
+        return ints
 
 
 class VarStringSerializer(Serializer):
-- 
2.43.0


From 8178385d326946b3e26bc440ef132384d7aa776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 21/58] fix: CheckBlock() checks the coinbase transaction too

CheckTransaction() is documented to be called for every transaction, and the
sigops of the coinbase count towards MAX_BLOCK_SIGOPS.
---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index eb84237..04f68e1 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -715,8 +715,8 @@ def CheckBlock(block, fCheckPoW = True, fCheckMerkleRoot = True, cur_time=None):
     # it'll be caught by the "more than one coinbase" test.
     unique_txids = set()
     nSigOps = 0
-    for tx in block.vtx[1:]:
-        if tx.is_coinbase():
+    for i, tx in enumerate(block.vtx):
+        if i > 0 and tx.is_coinbase():
             raise CheckBlockError("CheckBlock() : more than one coinbase")
 
         CheckTransaction(tx)
-- 
2.43.0


From 95ad16e3aab8561fa0cae567e8ff02e9e78e7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 22/58] fix: GetSigOpCount() of scripts with multisigs or
 invalid pushdata

Accurate counting raised AttributeError for CHECKMULTISIG preceded by OP_n, and
a truncated push anywhere in the script raised CScriptInvalidError.
---
 lib/python-bitcoinlib/bitcoin/core/script.py | 25 +++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/script.py b/lib/python-bitcoinlib/bitcoin/core/script.py
index 5f71e74..60cbce7 100644
--- a/lib/python-bitcoinlib/bitcoin/core/script.py
+++ b/lib/python-bitcoinlib/bitcoin/core/script.py
@@ -758,15 +758,22 @@ class CScript(bytes):
         """
         n = 0
         lastOpcode = OP_INVALIDOPCODE
-        for (opcode, data, sop_idx) in self.raw_iter():
-            if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
-                n += 1
-            elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
-                if fAccurate and (OP_1 <= lastOpcode <= OP_16):
-                    n += opcode.decode_op_n()
-                else:
-                    n += 20
-            lastOpcode = opcode
+        try:
+            for (opcode, data, sop_idx) in self.raw_iter():
+                if opcode in (OP_CHECKSIG, OP_CHECKSIGVERIFY):
+                    n += 1
+                elif opcode in (OP_CHECKMULTISIG, OP_CHECKMULTISIGVERIFY):
+                    if fAccurate and (OP_1 <= lastOpcode <= OP_16):
+                        n += CScriptOp(lastOpcode).decode_op_n()
+                    else:
+                        n += 20
+                lastOpcode = opcode
+
+        except CScriptInvalidError:
+            # Everything up to the invalid pushdata counts, matching the
+            # behavior in Bitcoin Core. Coinbase scriptSigs in particular need
+            # not be valid scripts.
+            pass
         return n
 
 
-- 
2.43.0


From 65adfd0553b55412006b2ce06d34fdb195053a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 23/58] fix: one set of SCRIPT_VERIFY_* flags rather than two
 different ones

bitcoin.core.script.SCRIPT_VERIFY_P2SH given to VerifyScript() was silently
ignored, as scripteval had flags of its own with the same names.
---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 0e7fa44..805df9e 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -39,11 +39,6 @@ from bitcoin.core.script import *
 MAX_NUM_SIZE = 4
 MAX_STACK_ITEMS = 1000
 
-SCRIPT_VERIFY_P2SH = object()
-SCRIPT_VERIFY_STRICTENC = object()
-SCRIPT_VERIFY_EVEN_S = object()
-SCRIPT_VERIFY_NOCACHE = object()
-
 class EvalScriptError(bitcoin.core.ValidationError):
     """Base class for exceptions raised when a script fails during EvalScript()
 
-- 
2.43.0


From f4c37ed089d47904a5a36260122e6ffe11c5e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 24/58] fix: the stack size limit applies to pushes of data too

---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index 805df9e..c6d635d 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -389,7 +389,6 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
 
             elif fExec:
                 stack.append(sop_data)
-                continue
 
         elif fExec or (OP_IF <= sop <= OP_ENDIF):
 
-- 
2.43.0


From e18b2616dee707ec35887bcebcfd6a27fe5f74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 25/58] fix: opcodes push the empty vector for false

OP_EQUAL, OP_WITHIN, OP_CHECKSIG and OP_CHECKMULTISIG pushed a zero byte
instead, which is distinguishable (OP_SIZE, OP_EQUAL, hashing) from what the
rest of the network pushes.
---
 lib/python-bitcoinlib/bitcoin/core/scripteval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/scripteval.py b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
index c6d635d..0582e1b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/scripteval.py
+++ b/lib/python-bitcoinlib/bitcoin/core/scripteval.py
@@ -194,7 +194,7 @@ def _CheckMultiSig(opcode, script, stack, txTo, inIdx, err_raiser, nOpCount):
         if success:
             stack.append(b"\x01")
         else:
-            stack.append(b"\x00")
+            stack.append(b"")
 
 
 # OP_2MUL and OP_2DIV are *not* included in this list as they are disabled
@@ -478,7 +478,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                         if sop != OP_CHECKSIGVERIFY:
                             stack.append(b"\x01")
                     else:
-                        stack.append(b"\x00")
+                        stack.append(b"")
 
             elif sop == OP_CODESEPARATOR:
                 pbegincodehash = sop_pc
@@ -514,7 +514,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v1 == v2:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             elif sop == OP_EQUALVERIFY:
                 check_args(2)
@@ -651,7 +651,7 @@ def _EvalScript(stack, scriptIn, txTo, inIdx, flags=()):
                 if v:
                     stack.append(b"\x01")
                 else:
-                    stack.append(b"\x00")
+                    stack.append(b"")
 
             else:
                 err_raiser(EvalScriptError, 'unsupported opcode 0x%x' % sop)
-- 
2.43.0


From da069750c8b20345e5cbf2da61b3050d8de8566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 26/58] fix: the message length is unsigned

A negative length read everything available from the stream, and was taken for
a shorter message.
---
 lib/python-bitcoinlib/bitcoin/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index aa6aedd..0ca0e92 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -84,7 +84,7 @@ class MsgSerializable(Serializable):
 
         # remaining header fields: command, msg length, checksum
         command = recvbuf[4:4+12].split(b"\x00", 1)[0]
-        msglen = struct.unpack(b"<i", recvbuf[4+12:4+12+4])[0]
+        msglen = struct.unpack(b"<I", recvbuf[4+12:4+12+4])[0]
         checksum = recvbuf[4+12+4:4+12+4+4]
 
         # read message body
-- 
2.43.0


From 9fc70e54626ced1ef26cc68d782b2cfd12c453d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 27/58] fix: serialization of version messages from versions
 before 209

The fields they don't have are None after deserialization, and couldn't be
serialized.
---
 lib/python-bitcoinlib/bitcoin/messages.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 0ca0e92..491696f 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -153,10 +153,12 @@ class msg_version(MsgSerializable):
         f.write(struct.pack(b"<Q", self.nServices))
         f.write(struct.pack(b"<q", self.nTime))
         self.addrTo.stream_serialize(f, True)
-        self.addrFrom.stream_serialize(f, True)
-        f.write(struct.pack(b"<Q", self.nNonce))
-        VarStringSerializer.stream_serialize(self.strSubVer, f)
-        f.write(struct.pack(b"<i", self.nStartingHeight))
+        if self.nVersion >= 106:
+            self.addrFrom.stream_serialize(f, True)
+            f.write(struct.pack(b"<Q", self.nNonce))
+            VarStringSerializer.stream_serialize(self.strSubVer, f)
+            if self.nVersion >= 209:
+                f.write(struct.pack(b"<i", self.nStartingHeight))
 
     def __repr__(self):
         return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=0x%016X strSubVer=%s nStartingHeight=%i)" % (self.nVersion, self.nServices, time.ctime(self.nTime), repr(self.addrTo), repr(self.addrFrom), self.nNonce, self.strSubVer, self.nStartingHeight)
-- 
2.43.0


From b525d73e5a9dd3eac075a73d55dcbe71bdc111d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 28/58] fix: (de)serialization of CUnsignedAlert

Used functions that don't exist.
---
 lib/python-bitcoinlib/bitcoin/net.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index 4916f21..bd78c01 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -18,6 +18,8 @@ from binascii import hexlify
 from bitcoin.core.serialize import (
         Serializable,
         VarStringSerializer,
+        VarIntSerializer,
+        intVectorSerialzer,
         ser_read,
         uint256VectorSerializer,
 )
@@ -127,14 +129,15 @@ class CUnsignedAlert(Serializable):
         c.nExpiration = struct.unpack(b"<q", ser_read(f,8))[0]
         c.nID = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nCancel = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setCancel = intVectorSerialzer.deserialize(f)
+        c.setCancel = intVectorSerialzer.stream_deserialize(f)
         c.nMinVer = struct.unpack(b"<i", ser_read(f,4))[0]
         c.nMaxVer = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.setSubVer = VarStringSerializer.deserialize(f)
+        c.setSubVer = [VarStringSerializer.stream_deserialize(f)
+                       for i in range(VarIntSerializer.stream_deserialize(f))]
         c.nPriority = struct.unpack(b"<i", ser_read(f,4))[0]
-        c.strComment = VarStringSerializer.deserialize(f)
-        c.strStatusBar = VarStringSerializer.deserialize(f)
-        c.strReserved = VarStringSerializer.deserialize(f)
+        c.strComment = VarStringSerializer.stream_deserialize(f)
+        c.strStatusBar = VarStringSerializer.stream_deserialize(f)
+        c.strReserved = VarStringSerializer.stream_deserialize(f)
         return c
 
     def stream_serialize(self, f):
@@ -143,14 +146,16 @@ class CUnsignedAlert(Serializable):
         f.write(struct.pack(b"<q", self.nExpiration))
         f.write(struct.pack(b"<i", self.nID))
         f.write(struct.pack(b"<i", self.nCancel))
-        f.write(ser_int_vector(self.setCancel))
+        intVectorSerialzer.stream_serialize(self.setCancel, f)
         f.write(struct.pack(b"<i", self.nMinVer))
         f.write(struct.pack(b"<i", self.nMaxVer))
-        f.write(ser_string_vector(self.setSubVer))
+        VarIntSerializer.stream_serialize(len(self.setSubVer), f)
+        for strSubVer in self.setSubVer:
+            VarStringSerializer.stream_serialize(strSubVer, f)
         f.write(struct.pack(b"<i", self.nPriority))
-        f.write(ser_string(self.strComment))
-        f.write(ser_string(self.strStatusBar))
-        f.write(ser_string(self.strReserved))
+        VarStringSerializer.stream_serialize(self.strComment, f)
+        VarStringSerializer.stream_serialize(self.strStatusBar, f)
+        VarStringSerializer.stream_serialize(self.strReserved, f)
 
     def __repr__(self):
         return "CUnsignedAlert(nVersion %d, nRelayUntil %d, nExpiration %d, nID %d, nCancel %d, nMinVer %d, nMaxVer %d, nPriority %d, strComment %s, strStatusBar %s, strReserved %s)" % (self.nVersion, self.nRelayUntil, self.nExpiration, self.nID, self.nCancel, self.nMinVer, self.nMaxVer, self.nPriority, self.strComment, self.strStatusBar, self.strReserved)
-- 
2.43.0


From 10be28960d1d4303423cd12535cfd0ab28e2cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 29/58] fix: deserialization of bloom filters

Raised UnboundLocalError.
---
 lib/python-bitcoinlib/bitcoin/bloom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 8f76cbd..26b9d74 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -169,9 +169,9 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         vData = bitcoin.core.serialize.BytesSerializer.stream_deserialize(f)
         (nHashFuncs,
          nTweak,
-         nFlags) = self.__struct.unpack(_ser_read(f, self.__struct.size))
-        self = cls()
-        self.vData = vData
+         nFlags) = cls.__struct.unpack(bitcoin.core.serialize.ser_read(f, cls.__struct.size))
+        self = cls.__new__(cls)
+        self.vData = bytearray(vData)
         self.nHashFuncs = nHashFuncs
         self.nTweak = nTweak
         self.nFlags = nFlags
-- 
2.43.0


From 12ee9d5062be37540e201251d21bee343a327cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 30/58] fix: make_close_seal_tx_template() returns a mutable
 transaction

As documented.
---
 proofchains/uniquebits/singleuseseal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/proofchains/uniquebits/singleuseseal.py b/proofchains/uniquebits/singleuseseal.py
index 3580871..fe8512f 100644
--- a/proofchains/uniquebits/singleuseseal.py
+++ b/proofchains/uniquebits/singleuseseal.py
@@ -12,7 +12,7 @@
 """Single use seals - non-consensus-critical functionality"""
 
 from bitcoin.core.script import CScript, OP_RETURN, OP_HASH160, OP_EQUAL, OP_DUP, OP_EQUALVERIFY, OP_CHECKSIG
-from bitcoin.core import Hash160, CTransaction, CTxIn, CTxOut
+from bitcoin.core import Hash160, CMutableTransaction, CMutableOutPoint, CMutableTxIn, CMutableTxOut
 
 def make_close_seal_tx_template(digest, *seals, meth='op_return', dust=600):
     """Make a transaction that would to close a seal(s) if mined
@@ -21,14 +21,14 @@ def make_close_seal_tx_template(digest, *seals, meth='op_return', dust=600):
     """
     txout = None
     if meth == 'op_return':
-        txout = CTxOut(0, CScript([OP_RETURN, digest]))
+        txout = CMutableTxOut(0, CScript([OP_RETURN, digest]))
 
     elif meth == 'p2sh':
-        txout = CTxOut(dust, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))
+        txout = CMutableTxOut(dust, CScript([OP_HASH160, Hash160(digest), OP_EQUAL]))
 
     elif meth == 'p2pkh':
-        txout = CTxOut(dust, CScript([OP_DUP, OP_HASH160, Hash160(digest), OP_EQUALVERIFY, OP_CHECKSIG]))
+        txout = CMutableTxOut(dust, CScript([OP_DUP, OP_HASH160, Hash160(digest), OP_EQUALVERIFY, OP_CHECKSIG]))
 
-    txins = [CTxIn(seal.outpoint) for seal in seals]
+    txins = [CMutableTxIn(CMutableOutPoint.from_outpoint(seal.outpoint)) for seal in seals]
 
-    return CTransaction(txins, [txout])
+    return CMutableTransaction(txins, [txout])
-- 
2.43.0


From 3fe7fa463877d1e50f2990c43d8a022a055cc2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 31/58] fix: closing two seals on the same outpoint made a tx
 with duplicate inputs

---
 proofchains/uniquebits/singleuseseal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proofchains/uniquebits/singleuseseal.py b/proofchains/uniquebits/singleuseseal.py
index fe8512f..343bf55 100644
--- a/proofchains/uniquebits/singleuseseal.py
+++ b/proofchains/uniquebits/singleuseseal.py
@@ -29,6 +29,11 @@ def make_close_seal_tx_template(digest, *seals, meth='op_return', dust=600):
     elif meth == 'p2pkh':
         txout = CMutableTxOut(dust, CScript([OP_DUP, OP_HASH160, Hash160(digest), OP_EQUALVERIFY, OP_CHECKSIG]))
 
-    txins = [CMutableTxIn(CMutableOutPoint.from_outpoint(seal.outpoint)) for seal in seals]
+    # More than one seal may be on the same outpoint, which can of course only be
+    # spent once.
+    txins = []
+    for seal in seals:
+        if seal.outpoint not in [txin.prevout for txin in txins]:
+            txins.append(CMutableTxIn(CMutableOutPoint.from_outpoint(seal.outpoint)))
 
     return CMutableTransaction(txins, [txout])
-- 
2.43.0


From b5fb2f6fab6024750aa4713d1bc34e1b5e1d0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 32/58] fix: make_close_seal_tx_template() rejects unknown
 methods

Rather than returning a transaction whose only output is None.
---
 proofchains/uniquebits/singleuseseal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proofchains/uniquebits/singleuseseal.py b/proofchains/uniquebits/singleuseseal.py
index 343bf55..155590f 100644
--- a/proofchains/uniquebits/singleuseseal.py
+++ b/proofchains/uniquebits/singleuseseal.py
@@ -29,6 +29,9 @@ def make_close_seal_tx_template(digest, *seals, meth='op_return', dust=600):
     elif meth == 'p2pkh':
         txout = CMutableTxOut(dust, CScript([OP_DUP, OP_HASH160, Hash160(digest), OP_EQUALVERIFY, OP_CHECKSIG]))
 
+    else:
+        raise ValueError('Unknown seal closing method %r' % meth)
+
     # More than one seal may be on the same outpoint, which can of course only be
     # spent once.
     txins = []
-- 
2.43.0


From 2616f7239ad0dd6e1ffb992b21e747367d9d4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 33/58] fix: sus-tool mkseal

Seals have a nonce now; raised KeyError.
---
 sus-tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index a8d0d38..8cfe572 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -16,6 +16,7 @@
 import argparse
 import collections
 import logging
+import os
 
 import bitcoin.rpc
 
@@ -88,7 +89,7 @@ mkseal_parser.add_argument('seal_fd', type=argparse.FileType('xb'), metavar='FIL
         help='Seal file')
 
 def cmd_mkseal(args):
-    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint)
+    btc_seal = BitcoinSingleUseSeal(outpoint=args.outpoint, nonce=os.urandom(16))
     args.seal_fd.write(btc_seal.serialize())
 
 mkseal_parser.set_defaults(cmd_func=cmd_mkseal)
-- 
2.43.0


From 6e8e9d153a2f92d7e207db4e562a3c9841d850b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 34/58] fix: sus-tool witnessinfo shows the txid of the
 outpoint as such

And not byte-reversed, unlike everything else.
---
 sus-tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8cfe572..8e8d9e1 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -246,7 +246,7 @@ def cmd_witnessinfo(args):
     print('Hash:\t\t%s' % b2x(witness.hash))
     print('Txid:\t\t%s' % b2lx(witness.txinproof.txproof.txhash))
     print('Seal Hash:\t%s' % b2x(witness.seal.hash))
-    print('Seal OutPoint:\t%s:%d' % (b2x(witness.seal.outpoint.hash), witness.seal.outpoint.n))
+    print('Seal OutPoint:\t%s:%d' % (b2lx(witness.seal.outpoint.hash), witness.seal.outpoint.n))
 
 witnessinfo_parser.set_defaults(cmd_func=cmd_witnessinfo)
 
-- 
2.43.0


From 13d284020beae3eaed1b8730d65f9b186bea6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 35/58] fix: sus-tool verifywitness checks the seal it's given

--seal-file and --seal-id were silently ignored.
---
 sus-tool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sus-tool.py b/sus-tool.py
index 8e8d9e1..d621852 100755
--- a/sus-tool.py
+++ b/sus-tool.py
@@ -214,7 +214,12 @@ def cmd_verifywitness(args):
     if args.digest is not None:
         witness.verify_hash(args.digest)
 
-    # FIXME: seal and seal hash
+    if args.seal_file is not None:
+        seal = BitcoinSingleUseSeal.deserialize(args.seal_file.read())
+        assert witness.seal == seal
+
+    if args.seal_id is not None:
+        assert witness.seal.hash == args.seal_id
 
 verifywitness_parser.set_defaults(cmd_func=cmd_verifywitness)
 
-- 
2.43.0


From 8b7454683c910a875c9f86783151196d586bfb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 36/58] fix: absurdly large lengths are a TruncationError, not
 an OverflowError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 9eb49a6..358fb17 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -184,7 +184,11 @@ class StreamDeserializationContext(DeserializationContext):
         self.fd = fd
 
     def fd_read(self, l):
-        r = self.fd.read(l)
+        try:
+            r = self.fd.read(l)
+        except OverflowError:
+            # Lengths come from the serialized data, and can be absurdly large
+            raise TruncationError('Tried to read %d bytes' % l)
         if len(r) != l:
             raise TruncationError('Tried to read %d bytes but got only %d bytes' % \
                                   (l, len(r)))
-- 
2.43.0


From 01197fdeb6a0130cdac8921dff210dd3eb203a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 37/58] fix: malformed transactions and outpoints in proofs are
 DeserializationErrors

---
 proofchains/core/bitcoin.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index 3720f0d..ea65ed6 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -35,7 +35,10 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         serialized_tx = ctx.read_bytes(l)
-        tx = bitcoin.core.CTransaction.deserialize(serialized_tx)
+        try:
+            tx = bitcoin.core.CTransaction.deserialize(serialized_tx)
+        except bitcoin.core.serialize.SerializationError as exp:
+            raise proofmarshal.serialize.DeserializationError('Bad transaction: %s' % exp)
         return tx
 
 class COutPointSerializer(proofmarshal.serialize.Serializer):
@@ -56,7 +59,10 @@ class COutPointSerializer(proofmarshal.serialize.Serializer):
     def ctx_deserialize(cls, ctx):
         l = ctx.read_varuint()
         serialized_outpoint = ctx.read_bytes(l)
-        outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint)
+        try:
+            outpoint = bitcoin.core.COutPoint.deserialize(serialized_outpoint)
+        except bitcoin.core.serialize.SerializationError as exp:
+            raise proofmarshal.serialize.DeserializationError('Bad outpoint: %s' % exp)
         return outpoint
 
 class TxProof(proofmarshal.proof.Proof):
-- 
2.43.0


From 6c98b0db81e02f89f31f8b4feac2f1a53a15d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 38/58] fix: transactions in proofs have exactly one
 serialization

---
 proofchains/core/bitcoin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proofchains/core/bitcoin.py b/proofchains/core/bitcoin.py
index ea65ed6..b72f095 100644
--- a/proofchains/core/bitcoin.py
+++ b/proofchains/core/bitcoin.py
@@ -39,6 +39,9 @@ class CTransactionSerializer(proofmarshal.serialize.Serializer):
             tx = bitcoin.core.CTransaction.deserialize(serialized_tx)
         except bitcoin.core.serialize.SerializationError as exp:
             raise proofmarshal.serialize.DeserializationError('Bad transaction: %s' % exp)
+        if tx.serialize() != serialized_tx:
+            # Bitcoin varints don't have to be minimally encoded
+            raise proofmarshal.serialize.DeserializationError('Transaction not canonically serialized')
         return tx
 
 class COutPointSerializer(proofmarshal.serialize.Serializer):
-- 
2.43.0


From 993758f0f77bff9c8b2289f1976d291b36726499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 39/58] fix: too deeply nested data is a DeserializationError,
 not a RecursionError

---
 lib/python-proofmarshal/proofmarshal/serialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/serialize.py b/lib/python-proofmarshal/proofmarshal/serialize.py
index 358fb17..2f8ea56 100644
--- a/lib/python-proofmarshal/proofmarshal/serialize.py
+++ b/lib/python-proofmarshal/proofmarshal/serialize.py
@@ -291,7 +291,11 @@ class Serializer:
     def deserialize(cls, serialized_value):
         """Deserialize from bytes"""
         ctx = BytesDeserializationContext(serialized_value)
-        r = cls.ctx_deserialize(ctx)
+        try:
+            r = cls.ctx_deserialize(ctx)
+        except RecursionError:
+            # How deeply objects are nested is up to the serialized data
+            raise DeserializationError('Nested too deeply')
         ctx.assert_eof()
         return r
 
-- 
2.43.0


From ee3bcd6c5be1accbfa5f03fa1ae7188f94080c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 40/58] fix: OpenSSL pointers aren't truncated to 32 bits

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 6083fa6..703154c 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -36,6 +36,20 @@ def _check_result (val, func, args):
 _ssl.EC_KEY_new_by_curve_name.restype = ctypes.c_void_p
 _ssl.EC_KEY_new_by_curve_name.errcheck = _check_result
 
+# Without these ctypes truncates pointers to the 32 bits of a C int
+for _name in ('BN_new', 'BN_bin2bn', 'BN_CTX_new', 'EC_KEY_get0_group',
+              'EC_KEY_get0_public_key', 'EC_POINT_new', 'o2i_ECPublicKey',
+              'd2i_ECPrivateKey'):
+    getattr(_ssl, _name).restype = ctypes.c_void_p
+_ssl.BN_bin2bn.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_void_p]
+_ssl.EC_POINT_new.argtypes = [ctypes.c_void_p]
+_ssl.EC_POINT_mul.argtypes = [ctypes.c_void_p] * 6
+_ssl.EC_POINT_free.argtypes = [ctypes.c_void_p]
+_ssl.EC_KEY_set_private_key.argtypes = [ctypes.c_void_p] * 2
+_ssl.EC_KEY_set_public_key.argtypes = [ctypes.c_void_p] * 2
+_ssl.BN_CTX_free.argtypes = [ctypes.c_void_p]
+_ssl.ECDH_compute_key.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_void_p] * 3
+
 class CECKey:
     """Wrapper around OpenSSL's EC_KEY"""
 
-- 
2.43.0


From 55c3f9937566c6ef4608877c2539551fd4cbe9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 41/58] fix: no signature verifies under an invalid public key

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index 703154c..d18c7c4 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -84,7 +84,13 @@ class CECKey:
 
     def set_pubkey(self, key):
         self.mb = ctypes.create_string_buffer(key)
-        return _ssl.o2i_ECPublicKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
+        r = _ssl.o2i_ECPublicKey(ctypes.byref(self.k), ctypes.byref(ctypes.pointer(self.mb)), len(key))
+        if not r or len(key) == 1:
+            # Invalid, or the point at infinity. Either way the public key is
+            # now the point at infinity, for which anyone can make signatures.
+            _ssl.EC_KEY_free(self.k)
+            self.k = _ssl.EC_KEY_new_by_curve_name(_NID_secp256k1)
+        return 1 if r else 0
 
     def get_privkey(self):
         size = _ssl.i2d_ECPrivateKey(self.k, 0)
-- 
2.43.0


From d4fe7df980073b74ffa869293ea6a271040e0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 42/58] fix: a secret of the wrong length is an error, not read
 out of bounds

---
 lib/python-bitcoinlib/bitcoin/core/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/core/key.py b/lib/python-bitcoinlib/bitcoin/core/key.py
index d18c7c4..2b83f06 100644
--- a/lib/python-bitcoinlib/bitcoin/core/key.py
+++ b/lib/python-bitcoinlib/bitcoin/core/key.py
@@ -65,6 +65,8 @@ class CECKey:
         self.k = None
 
     def set_secretbytes(self, secret):
+        if len(secret) != 32:
+            raise ValueError('Secret must be exactly 32 bytes long')
         priv_key = _ssl.BN_bin2bn(secret, 32, _ssl.BN_new())
         group = _ssl.EC_KEY_get0_group(self.k)
         pub_key = _ssl.EC_POINT_new(group)
-- 
2.43.0


From ef56051d4c8fde96ca8710fae19dc14c4771579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 43/58] fix: selecting mainnet keeps its genesis block and
 proof of work limit

---
 lib/python-bitcoinlib/bitcoin/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/__init__.py b/lib/python-bitcoinlib/bitcoin/__init__.py
index de56cd5..4fade2f 100644
--- a/lib/python-bitcoinlib/bitcoin/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/__init__.py
@@ -13,7 +13,7 @@ from __future__ import absolute_import, division, print_function, unicode_litera
 
 import bitcoin.core
 
-class MainParams(bitcoin.core.CoreChainParams):
+class MainParams(bitcoin.core.CoreMainParams):
     MESSAGE_START = b'\xf9\xbe\xb4\xd9'
     DEFAULT_PORT = 8333
     RPC_PORT = 8332
-- 
2.43.0


From 92dc72c53b7157ec157e2bdb7cddac00b2713f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 44/58] fix: base58 data shorter than a version and checksum is
 rejected

---
 lib/python-bitcoinlib/bitcoin/base58.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/base58.py b/lib/python-bitcoinlib/bitcoin/base58.py
index 4253240..ffe057a 100644
--- a/lib/python-bitcoinlib/bitcoin/base58.py
+++ b/lib/python-bitcoinlib/bitcoin/base58.py
@@ -103,6 +103,8 @@ class CBase58Data(bytes):
     """
     def __new__(cls, s):
         k = decode(s)
+        if len(k) < 5:
+            raise Base58ChecksumError('Too short for a version and checksum: %d bytes' % len(k))
         verbyte, data, check0 = k[0:1], k[1:-4], k[-4:]
         check1 = bitcoin.core.Hash(verbyte + data)[:4]
         if check0 != check1:
-- 
2.43.0


From af18c9d3591c1f6bd07c0655df5b2d3e75a1afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 45/58] fix: messages use the magic of the selected chain by
 default

---
 lib/python-bitcoinlib/bitcoin/messages.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index 491696f..a94a25e 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -33,7 +33,7 @@ else:
 from bitcoin.core import *
 from bitcoin.core.serialize import *
 from bitcoin.net import *
-from bitcoin import MainParams
+import bitcoin
 
 MSG_TX = 1
 MSG_BLOCK = 2
@@ -51,7 +51,9 @@ class MsgSerializable(Serializable):
     def msg_deser(cls, f, protover=PROTO_VERSION):
         raise NotImplementedError
 
-    def to_bytes(self, params=MainParams()):
+    def to_bytes(self, params=None):
+        if params is None:
+            params = bitcoin.params
         f = _BytesIO()
         self.msg_ser(f)
         body = f.getvalue()
@@ -74,7 +76,9 @@ class MsgSerializable(Serializable):
         return MsgSerializable.stream_deserialize(f, protover=protover)
 
     @classmethod
-    def stream_deserialize(cls, f, params=MainParams(), protover=PROTO_VERSION):
+    def stream_deserialize(cls, f, params=None, protover=PROTO_VERSION):
+        if params is None:
+            params = bitcoin.params
         recvbuf = ser_read(f, 4 + 12 + 4 + 4)
 
         # check magic
-- 
2.43.0


From 6ca6c4be752ddba1b83b5879bc12151041e01353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 46/58] fix: an address is of a 20 byte hash

---
 lib/python-bitcoinlib/bitcoin/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index 9273259..5887823 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -36,6 +36,9 @@ class CBitcoinAddress(bitcoin.base58.CBase58Data):
 
     @classmethod
     def from_bytes(cls, data, nVersion):
+        if len(data) != 20:
+            raise CBitcoinAddressError('Addresses are of 20 byte hashes; got %d bytes' % len(data))
+
         self = super(CBitcoinAddress, cls).from_bytes(data, nVersion)
 
         if nVersion == bitcoin.params.BASE58_PREFIXES['SCRIPT_ADDR']:
-- 
2.43.0


From bd30c88577716bced5aea8608bf85064f5f5071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 47/58] fix: an encoded secret key has exactly 32 bytes and a
 compression flag

---
 lib/python-bitcoinlib/bitcoin/wallet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/wallet.py b/lib/python-bitcoinlib/bitcoin/wallet.py
index 5887823..ea8aa35 100644
--- a/lib/python-bitcoinlib/bitcoin/wallet.py
+++ b/lib/python-bitcoinlib/bitcoin/wallet.py
@@ -234,6 +234,8 @@ class CBitcoinSecret(bitcoin.base58.CBase58Data, CKey):
     @classmethod
     def from_secret_bytes(cls, secret, compressed=True):
         """Create a secret key from a 32-byte secret"""
+        if len(secret) != 32:
+            raise ValueError('Secret must be exactly 32 bytes long')
         self = cls.from_bytes(secret + (b'\x01' if compressed else b''),
                               bitcoin.params.BASE58_PREFIXES['SECRET_KEY'])
         self.__init__(None)
@@ -244,7 +246,10 @@ class CBitcoinSecret(bitcoin.base58.CBase58Data, CKey):
             raise CBitcoinSecretError('Not a base58-encoded secret key: got nVersion=%d; expected nVersion=%d' % \
                                       (self.nVersion, bitcoin.params.BASE58_PREFIXES['SECRET_KEY']))
 
-        CKey.__init__(self, self[0:32], len(self) > 32 and _bord(self[32]) == 1)
+        if not (len(self) == 32 or (len(self) == 33 and _bord(self[32]) == 1)):
+            raise CBitcoinSecretError('Not a base58-encoded secret key: wrong length or compression flag')
+
+        CKey.__init__(self, self[0:32], len(self) > 32)
 
 
 __all__ = (
-- 
2.43.0


From 2097602302fdcf0f79b0c6f39e4cef72cf4e8976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 48/58] fix: an empty bloom filter contains everything rather
 than dividing by zero

---
 lib/python-bitcoinlib/bitcoin/bloom.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/python-bitcoinlib/bitcoin/bloom.py b/lib/python-bitcoinlib/bitcoin/bloom.py
index 26b9d74..f2dff28 100644
--- a/lib/python-bitcoinlib/bitcoin/bloom.py
+++ b/lib/python-bitcoinlib/bitcoin/bloom.py
@@ -131,6 +131,10 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
+        if len(self.vData) == 0:
+            # No bits to set; avoids dividing by zero
+            return
+
         if len(self.vData) == 1 and self.vData[0] == 0xff:
             return
 
@@ -147,6 +151,9 @@ class CBloomFilter(bitcoin.core.serialize.Serializable):
         if isinstance(elem, bitcoin.core.COutPoint):
             elem = elem.serialize()
 
+        if len(self.vData) == 0:
+            return True
+
         if len(self.vData) == 1 and self.vData[0] == 0xff:
             return True
 
-- 
2.43.0


From d9e2b916b3ea56dad34abd5f4b6eef84a1273648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 49/58] fix: RPC proxies to https services can be made again

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 801cb3b..9c89777 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -121,7 +121,6 @@ class RawProxy(object):
             self.__conn = _connection
         elif self.__url.scheme == 'https':
             self.__conn = httplib.HTTPSConnection(self.__url.hostname, port=port,
-                                                  key_file=None, cert_file=None,
                                                   timeout=timeout)
         else:
             self.__conn = httplib.HTTPConnection(self.__url.hostname, port=port,
-- 
2.43.0


From 0d473f0eba11a0e09223a3994899a22b1d5fc290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 50/58] fix: RPC credentials with reserved characters are sent
 as configured

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 9c89777..8a20110 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -27,8 +27,10 @@ import platform
 import sys
 try:
     import urllib.parse as urlparse
+    from urllib.parse import quote, unquote
 except ImportError:
     import urlparse
+    from urllib import quote, unquote
 
 import bitcoin
 from bitcoin.core import COIN, lx, b2lx, CBlock, CTransaction, COutPoint, CTxOut
@@ -102,7 +104,7 @@ class RawProxy(object):
 
                 service_url = ('%s://%s:%s@localhost:%d' %
                     ('https' if conf['rpcssl'] else 'http',
-                     conf['rpcuser'], conf['rpcpassword'],
+                     quote(conf['rpcuser'], safe=''), quote(conf['rpcpassword'], safe=''),
                      conf['rpcport']))
 
         self.__service_url = service_url
@@ -112,7 +114,7 @@ class RawProxy(object):
         else:
             port = self.__url.port
         self.__id_count = 0
-        authpair = "%s:%s" % (self.__url.username, self.__url.password)
+        authpair = "%s:%s" % (unquote(self.__url.username or ''), unquote(self.__url.password or ''))
         authpair = authpair.encode('utf8')
         self.__auth_header = b"Basic " + base64.b64encode(authpair)
 
-- 
2.43.0


From 70a4068e2aaaa190684385bf718c3f681f789215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 51/58] fix: listunspent() with outputs that have no address

---
 lib/python-bitcoinlib/bitcoin/rpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/rpc.py b/lib/python-bitcoinlib/bitcoin/rpc.py
index 8a20110..a8eeae4 100644
--- a/lib/python-bitcoinlib/bitcoin/rpc.py
+++ b/lib/python-bitcoinlib/bitcoin/rpc.py
@@ -392,7 +392,9 @@ class Proxy(RawProxy):
             del unspent['txid']
             del unspent['vout']
 
-            unspent['address'] = CBitcoinAddress(unspent['address'])
+            # Absent for scripts that no address stands for
+            if 'address' in unspent:
+                unspent['address'] = CBitcoinAddress(unspent['address'])
             unspent['scriptPubKey'] = CScript(unhexlify(unspent['scriptPubKey']))
             unspent['amount'] = int(unspent['amount'] * COIN)
             r2.append(unspent)
-- 
2.43.0


From 26a164bf15e6212bd2e9725b39ac0a1701841ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 52/58] fix: str_money_value() of negative amounts

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 04f68e1..d7b407c 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -93,7 +93,7 @@ del _py2_b2lx
 
 def str_money_value(value):
     """Convert an integer money value to a fixed point string"""
-    r = '%i.%08i' % (value // COIN, value % COIN)
+    r = '%s%i.%08i' % ('-' if value < 0 else '', abs(value) // COIN, abs(value) % COIN)
     r = r.rstrip('0')
     if r[-1] == '.':
         r += '0'
-- 
2.43.0


From 77d6753b13e264349c5d8f1b251d2746c1ca93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 53/58] fix: repr() of block headers is valid Python

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index d7b407c..0106022 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -433,7 +433,7 @@ class CBlockHeader(ImmutableSerializable):
     difficulty = property(lambda self: CBlockHeader.calc_difficulty(self.nBits))
 
     def __repr__(self):
-        return "%s(%i, lx(%s), lx(%s), %s, 0x%08x, 0x%08x)" % \
+        return "%s(%i, lx(%r), lx(%r), %s, 0x%08x, 0x%08x)" % \
                 (self.__class__.__name__, self.nVersion, b2lx(self.hashPrevBlock), b2lx(self.hashMerkleRoot),
                  self.nTime, self.nBits, self.nNonce)
 
-- 
2.43.0


From ae567c61de1dde90cb4cfd703fb63f37613094ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 54/58] fix: repr() of inventory vectors of unknown type

---
 lib/python-bitcoinlib/bitcoin/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/net.py b/lib/python-bitcoinlib/bitcoin/net.py
index bd78c01..b84ace7 100644
--- a/lib/python-bitcoinlib/bitcoin/net.py
+++ b/lib/python-bitcoinlib/bitcoin/net.py
@@ -82,7 +82,7 @@ class CInv(Serializable):
         f.write(self.hash)
 
     def __repr__(self):
-        return "CInv(type=%s hash=%s)" % (self.typemap[self.type], hexlify(self.hash))
+        return "CInv(type=%s hash=%s)" % (self.typemap.get(self.type, self.type), hexlify(self.hash))
 
 
 class CBlockLocator(Serializable):
-- 
2.43.0


From 8515f82b10825190bfcff571bd267702cebca8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 55/58] fix: repr() of version messages with any time, or
 without the newer fields

---
 lib/python-bitcoinlib/bitcoin/messages.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/python-bitcoinlib/bitcoin/messages.py b/lib/python-bitcoinlib/bitcoin/messages.py
index a94a25e..7434254 100644
--- a/lib/python-bitcoinlib/bitcoin/messages.py
+++ b/lib/python-bitcoinlib/bitcoin/messages.py
@@ -165,7 +165,16 @@ class msg_version(MsgSerializable):
                 f.write(struct.pack(b"<i", self.nStartingHeight))
 
     def __repr__(self):
-        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=0x%016X strSubVer=%s nStartingHeight=%i)" % (self.nVersion, self.nServices, time.ctime(self.nTime), repr(self.addrTo), repr(self.addrFrom), self.nNonce, self.strSubVer, self.nStartingHeight)
+        try:
+            nTime = time.ctime(self.nTime)
+        except (ValueError, OverflowError, OSError):
+            # Any 64 bit integer can be received
+            nTime = self.nTime
+
+        # Old versions of the message don't have these fields
+        nNonce = None if self.nNonce is None else '0x%016X' % self.nNonce
+
+        return "msg_version(nVersion=%i nServices=%i nTime=%s addrTo=%s addrFrom=%s nNonce=%s strSubVer=%s nStartingHeight=%s)" % (self.nVersion, self.nServices, nTime, repr(self.addrTo), repr(self.addrFrom), nNonce, self.strSubVer, self.nStartingHeight)
 
 
 class msg_verack(MsgSerializable):
-- 
2.43.0


From f3210a0347484739e68f4fdb52802e6d387bf038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 56/58] fix: blocks and merkle trees from any iterable of
 transactions or ids

---
 lib/python-bitcoinlib/bitcoin/core/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/python-bitcoinlib/bitcoin/core/__init__.py b/lib/python-bitcoinlib/bitcoin/core/__init__.py
index 0106022..2c92c0b 100644
--- a/lib/python-bitcoinlib/bitcoin/core/__init__.py
+++ b/lib/python-bitcoinlib/bitcoin/core/__init__.py
@@ -460,7 +460,7 @@ class CBlock(CBlockHeader):
         """
         merkle_tree = list(txids)
 
-        size = len(txids)
+        size = len(merkle_tree)
         j = 0
         while size > 1:
             for i in range(0, size, 2):
@@ -492,9 +492,10 @@ class CBlock(CBlockHeader):
         """Create a new block"""
         super(CBlock, self).__init__(nVersion, hashPrevBlock, hashMerkleRoot, nTime, nBits, nNonce)
 
+        vtx = tuple(CTransaction.from_tx(tx) for tx in vtx)
         vMerkleTree = tuple(CBlock.build_merkle_tree_from_txs(vtx))
         object.__setattr__(self, 'vMerkleTree', vMerkleTree)
-        object.__setattr__(self, 'vtx', tuple(CTransaction.from_tx(tx) for tx in vtx))
+        object.__setattr__(self, 'vtx', vtx)
 
     @classmethod
     def stream_deserialize(cls, f):
-- 
2.43.0


From 86546e19093570c9667eec9e367dc9fedfd9d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 57/58] fix: a key that ends where an inner node of a Merbinner
 tree does is not in it

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index 68965d4..21a9498 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -356,7 +356,7 @@ def make_MerbinnerTree_subclass(subclass):
             yield from self.right.values()
 
         def descend(self, prefix):
-            if len(self.prefix) <= len(prefix) and prefix.startswith(self.prefix):
+            if len(self.prefix) < len(prefix) and prefix.startswith(self.prefix):
                 # Prefix is both more specific than us (longer) and also starts
                 # with us.
                 #
-- 
2.43.0


From b09d2b5d34b9e05ff09fb08027e37705b2fb2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 58/58] fix: issubset() against a Merbinner tree whose only key
 is a prefix of the others

---
 lib/python-proofmarshal/proofmarshal/merbinnertree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/python-proofmarshal/proofmarshal/merbinnertree.py b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
index 21a9498..559f7d8 100644
--- a/lib/python-proofmarshal/proofmarshal/merbinnertree.py
+++ b/lib/python-proofmarshal/proofmarshal/merbinnertree.py
@@ -376,6 +376,11 @@ def make_MerbinnerTree_subclass(subclass):
             if self == them:
                 return True
 
+            elif them.__class__ is self.LeafNodeClass:
+                # We have more keys than they do. Note that the key of a leaf
+                # may well be a prefix of ours.
+                return False
+
             elif self.prefix == them.prefix:
                 # We both have the same prefix, yet we're not the same node. We
                 # can only be a subset of them if both our left and right
-- 
2.43.0

