From 1c61aab67fa84480c764d0b0f9fcec5d7f7b7d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 01/36] Simulation seam for object identity, guarded by
 ZKSK_SIM

---
 zksk/expr.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..7373298 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -11,12 +11,19 @@ Tiny expression language suitable for expressing statements on discrete logarith
 
 """
 
+import os
 import struct
 import hashlib
 
 from zksk.exceptions import InvalidExpression, IncompleteValuesError
 
 
+# Simulation seam, off unless ZKSK_SIM is set in the environment: a simulator can install here a
+# function that supplies the identity of an object, which is otherwise its memory address.
+SIM_ENABLED = bool(os.environ.get("ZKSK_SIM"))
+sim_identity = None
+
+
 class Expression:
     """
     Arithmetic expression of secrets and group elements.
@@ -111,7 +118,10 @@ class Secret:
         self.value = value
 
     def _generate_unique_name(self):
-        h = struct.pack(">q", super().__hash__())
+        identity = super().__hash__()
+        if SIM_ENABLED and sim_identity is not None:
+            identity = sim_identity(self)
+        h = struct.pack(">q", identity)
         return hashlib.sha256(h).hexdigest()[: self.NUM_NAME_BYTES * 4]
 
     def __mul__(self, base):
-- 
2.43.0


From 811f6b61bd3749e5674ad2a51e20612dd92abeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 02/36] fix: require one sub-challenge and response per clause
 in or-proofs

A spare sub-challenge absorbed any residual, so an or-proof with only
simulated clauses was accepted.
---
 zksk/composition.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..539735a 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -421,6 +421,15 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # There must be exactly one challenge and one response per subproof. A spare challenge could
+        # absorb any residual, so that all the subproofs could be simulated.
+        if len(self.or_challenges) != len(self.subproofs) or len(responses) != len(
+            self.subproofs
+        ):
+            raise InconsistentChallengeError(
+                "Need one challenge and one response per subproof."
+            )
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From 6fa452584939cb529aa9bb958cb2ecdab08ed6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 03/36] fix: keep received sub-challenges out of the shared
 or-statement

Two verifications of one statement object at the same time overwrote each
other's sub-challenges, and a good proof was refused.
---
 zksk/composition.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 539735a..ff084e5 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -418,12 +418,12 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
-        self.or_challenges = responses[0]
+        or_challenges = responses[0]
         responses = responses[1]
 
         # There must be exactly one challenge and one response per subproof. A spare challenge could
         # absorb any residual, so that all the subproofs could be simulated.
-        if len(self.or_challenges) != len(self.subproofs) or len(responses) != len(
+        if len(or_challenges) != len(self.subproofs) or len(responses) != len(
             self.subproofs
         ):
             raise InconsistentChallengeError(
@@ -432,7 +432,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
-            self.or_challenges, challenge, CHALLENGE_LENGTH
+            or_challenges, challenge, CHALLENGE_LENGTH
         ) != Bn(0):
             raise InconsistentChallengeError("Inconsistent challenges.")
 
@@ -441,9 +441,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         com = []
         for index, subproof in enumerate(self.subproofs):
             com.append(
-                subproof.recompute_commitment(
-                    self.or_challenges[index], responses[index]
-                )
+                subproof.recompute_commitment(or_challenges[index], responses[index])
             )
         return com
 
-- 
2.43.0


From 10572f107e597e6e1e402e4b55ac0168e19627e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 04/36] fix: keep the residual sub-challenge of or-proofs
 non-negative

It was the only negative number in the transcript, which revealed the clause
that was really proved (and with it every bit of a range proof).
---
 zksk/composition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index ff084e5..a543db8 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -36,7 +36,8 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     modulus = Bn(2).pow(modulus)
     temp_arr = subchallenges.copy()
     temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    # Reduce the opposite too: a negative sub-challenge would single out the clause it belongs to.
+    return (-sum_bn_array(temp_arr, modulus)).mod(modulus)
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From b626ec4d79fa8fffdcd484eb17f024f893737d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 05/36] fix: refuse or-proof sub-challenges outside of the
 challenge space

Adding a multiple of the group order to a simulated sub-challenge leaves its
commitment unchanged but moves the sum freely modulo 2^128, so an or-proof with
only simulated clauses was accepted.
---
 zksk/composition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index a543db8..dca300d 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -431,6 +431,12 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 "Need one challenge and one response per subproof."
             )
 
+        # Values that are congruent modulo a group order give the same commitment, so larger
+        # sub-challenges could be adapted after the fact.
+        max_challenge = Bn(2).pow(CHALLENGE_LENGTH)
+        if any(c < 0 or c >= max_challenge for c in or_challenges):
+            raise InconsistentChallengeError("Sub-challenge out of bounds.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From aebdeb8012f5f6ac4c4d3297597a70dd2538f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 06/36] fix: simulating a statement no longer disables proving
 it

ComposableProofStmt.simulate() left the statement marked as simulated, so a
later prove() on the same and- or or-statement got no prover.
---
 zksk/composition.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index dca300d..a2c7e1a 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -302,7 +302,6 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
-        self.set_simulated()
         self.prepare_simulate_proof()
         transcript = self.simulate_proof(challenge=challenge)
         transcript.stmt_hash = self.prehash_statement().digest()
-- 
2.43.0


From 5fca48b63c2591d38c37bab4aac1cd194233fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 07/36] fix: getting a DLRep prover reads the simulated mark
 instead of setting it

Each clause of an or-proof could be proved once only, because building its
prover marked it as simulated for good; a mark set by the user was ignored.
---
 zksk/primitives/dlrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..3052d68 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -123,7 +123,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From 02085b7aa6ca076a8413ce1920270fc957c42de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 08/36] fix: range proofs need exactly one commitment per bit

Further commitments took part in the combination but were never proved to be
bits, so any value could be proved to be in range.
---
 zksk/primitives/rangeproof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..a13e585 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -154,6 +154,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         rand = precommitment["rand"]
 
+        # Only the first commitments are proved to be bits. Spare ones could hold any value.
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("Need exactly one commitment per bit")
+
         # Combine bit commitments into value commitment
         combined = self.g.group.infinite()
         power = Bn(1)
-- 
2.43.0


From 5a2ee5204fa240849c210f2813ce748a7a73e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 09/36] fix: print pairing points by value, so that statement
 identifiers agree

The printed form was Python's salted hash, so two processes never agreed on the
identifier of a statement over pairing groups.
---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..1da8ede 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -117,7 +117,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.export().hex() + ")"
 
 
 class G1Point:
@@ -158,7 +158,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.export().hex() + ")"
 
 
 class G2Point:
@@ -196,7 +196,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From d78df3437d118083e32a4f5f8097b754a87ec0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 10/36] fix: compare the groups G2 and GT by value like G1

Points that were serialized and read back had a group unequal to that of local
points, so a transmitted proof of signature could not be verified.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 1da8ede..7c7b9db 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -63,6 +63,9 @@ class GTGroup:
             self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())
         return self.gen
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     def sum(self, points):
         res = self.infinite()
         for p in points:
@@ -273,6 +276,9 @@ class G2Group:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     # TODO throw these on a base class
     def sum(self, points):
         res = self.infinite()
-- 
2.43.0


From 9f466cb67a7fb21d72acbfff898a189fd0f761d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 11/36] fix: give simulated clauses precommitments of the same
 shape as real ones

A simulated and- or or-clause without precommitments sent a list of None where
a real one sends None, which told the clauses of an or-proof apart. An or-proof
of extended statements with empty precommitments dropped them altogether.
---
 zksk/composition.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index a2c7e1a..f163fc2 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -40,6 +40,21 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     return (-sum_bn_array(temp_arr, modulus)).mod(modulus)
 
 
+def _gather_precommitments(precommitments):
+    """
+    Precommitment of a composed proof.
+
+    It is the list of the subproofs' precommitments, or None if no subproof has one, in the same way
+    for actual and simulated proofs.
+
+    Args:
+        precommitments: Ordered list of the subproofs' precommitments.
+    """
+    if all(precommitment is None for precommitment in precommitments):
+        return None
+    return precommitments
+
+
 def _assign_secret_ids(secret_vars):
     """
     Assign consecutive identifiers to secrets.
@@ -566,7 +581,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             commitment=com,
             challenge=challenge,
             responses=(or_chals, resp),
-            precommitment=precom,
+            precommitment=_gather_precommitments(precom),
         )
 
 
@@ -611,9 +626,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
-            return None
-        return precommitment
+        return _gather_precommitments(precommitment)
 
     def internal_commit(self, randomizers_dict=None):
         """
@@ -826,7 +839,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             precom.append(simulation.precommitment)
 
         return SimulationTranscript(
-            commitment=com, challenge=challenge, responses=resp, precommitment=precom
+            commitment=com,
+            challenge=challenge,
+            responses=resp,
+            precommitment=_gather_precommitments(precom),
         )
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
-- 
2.43.0


From 4451031098ccd9ba6ef6e4c1112ed6811cf25ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 12/36] fix: let extended statements be constructed from any
 kind of statement

ExtendedVerifier.send_challenge handed an option to the inner verifier that only
AndVerifier has, so interactive verification failed for constructed
representations and or-proofs.
---
 zksk/extended.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..dc37942 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -224,18 +224,6 @@ class ExtendedVerifier(Verifier):
         self.stmt.full_construct_stmt(precommitment)
         self.constructed_verifier = self.stmt.constructed_stmt.get_verifier()
 
-    def send_challenge(self, com):
-        """
-        Transfer the commitment to the inner proof, and compute the challenge.
-        """
-
-        statement, self.commitment = com
-        self.stmt.check_statement(statement)
-        self.challenge = self.constructed_verifier.send_challenge(
-            self.commitment, ignore_statement_hash_checks=True
-        )
-        return self.challenge
-
     def check_responses_consistency(self, responses, responses_dict):
         """
         Wrap the consistency check of the innter proof.
-- 
2.43.0


From 4b5ff36c7fc33d5a3b648cfbfa112bf40249cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 13/36] fix: support range proofs over a single bit

Proving or verifying a range of two values raised ValueError.
---
 zksk/primitives/rangeproof.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index a13e585..a485b0c 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -130,6 +130,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
+        # A conjunction needs at least two members
+        if len(bit_proofs) == 1:
+            return bit_proofs[0]
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
-- 
2.43.0


From 0ad82dc974fd4740cffb77fc900b50aec92169e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 14/36] fix: enable simulation of primitives that only override
 construct_stmt

The documentation promises it, but simulate_precommit always raised.
---
 zksk/extended.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index dc37942..2e55517 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -67,8 +67,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         Override this method to enable using this proof in or-proofs.
 
         It should compute the same output as generated by precommit, but without relying on any
-        secrets.
+        secrets. There is nothing to simulate if precommit is not overridden.
         """
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            return self.precommit()
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
-- 
2.43.0


From 0c78166f3aaa3c8af77e3e1ee8bcc6e42d243bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 15/36] fix: adding expressions no longer changes the left
 operand

A sub-expression used in two statements silently grew in the first one.
---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 7373298..0110d9c 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -63,9 +63,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From 23fdc2f8ef5107ed477bcb196f82b06f7e864080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 16/36] fix: use the group given to BilinearGroupPair

---
 zksk/pairings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 7c7b9db..ee209b9 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -19,8 +19,7 @@ class BilinearGroupPair:
     """
 
     def __init__(self, bp_group=None):
-        if bp_group is None:
-            self.bpgp = BpGroup()
+        self.bpgp = BpGroup() if bp_group is None else bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From abaea72075e5d4f78df3b64791ba9231d976f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 17/36] fix: zero times a GT point is the neutral element

It raised TypeError, as bplib points have no division.
---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index ee209b9..0701438 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -104,7 +104,7 @@ class AdditivePoint:
         this value.
         """
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return self.group.infinite()
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From 24028bf722688167d8299754488c9251e10f3378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 18/36] fix: refuse more messages than a BBS+ key has
 generators for

The surplus was ignored, so a signature over as many messages as the key allows
verified with arbitrary further messages.
---
 zksk/primitives/bbsplus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..642f046 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -33,6 +33,10 @@ class BBSPlusSignature:
         """
         Verify the validity of the signature w.r.t the given public key and set of messages.
         """
+        # Messages without a generator would not be covered by the signature.
+        if len(messages) + 2 > len(pk.generators):
+            return False
+
         generators = pk.generators[: len(messages) + 2]
         product = generators[0] + generators[0].group.wsum(
             ([self.s] + messages), generators[1:]
@@ -91,6 +95,9 @@ class BBSPlusSignatureCreator:
         Returns:
             :py:class:`UserCommitmentMessage`: user's packed commitment.
         """
+        if len(messages) + 2 > len(self.pk.generators):
+            raise ValueError("More messages than the key has generators for.")
+
         lhs = self.pk.generators[0].group.wsum(
             messages, self.pk.generators[2 : len(messages) + 2]
         )
-- 
2.43.0


From c0e631408b1637db1b5223ab8a3f8ab3746a6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 19/36] fix: forget the blinding factor when committing without
 one

An unblinded request after a blinded one with the same creator ended in an
invalid signature, as the old factor was added to it.
---
 zksk/primitives/bbsplus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 642f046..b75d550 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -102,6 +102,7 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From 4dfcad8838c71d1a3c6f07fb2efbfae013d296ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 20/36] fix: refuse precommitments that change after the
 challenge was sent

A dishonest prover could replace the precommitment of an interactive proof when
it knew the challenge (or use a second session on the same statement object for
it), and so prove, for example, equal discrete logarithms unequal.
---
 zksk/base.py        | 9 +++++++++
 zksk/composition.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/zksk/base.py b/zksk/base.py
index e181697..d99e116 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -171,6 +171,9 @@ class Verifier(metaclass=abc.ABCMeta):
     An abstract interface representing Prover used in sigma protocols
     """
 
+    # Hash of the statement for which the challenge was sent, if any.
+    statement_hash = None
+
     def __init__(self, stmt):
         self.stmt = stmt
 
@@ -200,6 +203,7 @@ class Verifier(metaclass=abc.ABCMeta):
         """
         statement, self.commitment = commitment
         self.stmt.check_statement(statement)
+        self.statement_hash = statement
         self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
@@ -222,6 +226,11 @@ class Verifier(metaclass=abc.ABCMeta):
         Returns:
             bool: True if verification succeeded, False otherwise.
         """
+        # The statement must not have changed since the challenge was sent. A precommitment that is
+        # received later could depend on the challenge.
+        if self.statement_hash is not None:
+            self.stmt.check_statement(self.statement_hash)
+
         # TODO: I really don't think this chain should be raising exceptions
         self.pre_verification_validation(response, *args, **kwargs)
 
diff --git a/zksk/composition.py b/zksk/composition.py
index f163fc2..8874ee7 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -943,6 +943,7 @@ class AndVerifier(Verifier):
         else:
             statement, self.commitment = commitment
             self.stmt.check_statement(statement)
+            self.statement_hash = statement
         self.challenge = get_random_num(CHALLENGE_LENGTH)
         return self.challenge
 
-- 
2.43.0


From f1d7370ed4065d00871af2f4904bb3b0c66959a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 21/36] fix: copy nested subproofs when composing

Only the top level was copied, so two occurrences of a conjunction with extended
statements shared their state, and their proof failed.
---
 zksk/composition.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 8874ee7..2acf967 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -348,6 +348,15 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        """
+        Copy along with the subproofs, so that occurrences of a composed proof share no state.
+        """
+        clone = self.__class__.__new__(self.__class__)
+        clone.__dict__.update(self.__dict__)
+        clone.subproofs = [copy.copy(p) for p in self.subproofs]
+        return clone
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From a5c4e0eb32afdb85798f0fc1a98feb4af5deb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 22/36] fix: let one inequality or signature statement occur
 several times in a conjunction

Copies shared the secrets of the construction but not their values, so the proof
failed the consistency check.
---
 zksk/extended.py               | 14 ++++++++++++++
 zksk/primitives/bbsplus.py     |  2 ++
 zksk/primitives/dl_notequal.py |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 2e55517..70ba60f 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -28,6 +28,7 @@ import abc
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import StatementSpecError
+from zksk.expr import Secret
 from zksk.utils.misc import get_default_attr
 
 
@@ -36,6 +37,19 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     Proof that deals with precommitments.
     """
 
+    # Names of attributes with secrets that belong to the construction of one proof only.
+    internal_secrets = ()
+
+    def __copy__(self):
+        """
+        Copy with own internal secrets, so that occurrences of a statement can be proved together.
+        """
+        clone = self.__class__.__new__(self.__class__)
+        clone.__dict__.update(self.__dict__)
+        for name in self.internal_secrets:
+            setattr(clone, name, Secret())
+        return clone
+
     @abc.abstractmethod
     def construct_stmt(self):
         """
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index b75d550..fd7fe63 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -234,6 +234,8 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         simulated (bool): If this proof is a part of an or-proof: whether it should be simulated.
     """
 
+    internal_secrets = ("r1", "r2", "delta1", "delta2")
+
     def __init__(self, secret_vars, pk, signature=None, binding=True, simulated=False):
         self.pk = pk
         self.signature = signature
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..d7d3fb7 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -44,6 +44,8 @@ class DLNotEqual(ExtendedProofStmt):
         simulated (bool): If this proof is a part of an or-proof: whether it should be simulated.
     """
 
+    internal_secrets = ("alpha", "beta")
+
     def __init__(self, valid_pair, invalid_pair, x, bind=False, simulated=False):
         if len(valid_pair) != 2 or len(invalid_pair) != 2:
             raise TypeException("The valid_pair and invalid_pair must be pairs")
-- 
2.43.0


From 83b0eb4219781e159c4ea43090fb86a74438b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 23/36] fix: simulate range statements without looking at the
 value

Simulating a disjunct whose value is known but not in range raised, although a
simulation must not depend on secrets.
---
 zksk/primitives/rangeproof.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index a485b0c..8f1fa84 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -76,6 +76,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         self.order = g.group.order()
         self.num_bits = num_bits
 
+        # Bits of the value, known while it is being proved
+        self.bits = None
+
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
@@ -85,6 +88,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         actual_value = ensure_bn(self.x.value)
         value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
+        self.bits = value_as_bits
 
         # Set true value to computed secrets
         for rand in self.randomizers:
@@ -111,12 +115,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         Construct the internal proof statement.
         """
-        if self.is_prover:
+        if self.bits is not None:
             # Indicators that tell us which or-clause is true
-            actual_value = ensure_bn(self.x.value)
-            value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
-            zero_simulated = [b == 1 for b in value_as_bits]
-            one_simulated = [b == 0 for b in value_as_bits]
+            zero_simulated = [b == 1 for b in self.bits]
+            one_simulated = [b == 0 for b in self.bits]
 
         bit_proofs = []
         for i in range(self.num_bits):
@@ -124,7 +126,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             p1 = DLRep(precommitment["Cs"][i] - self.g, self.randomizers[i] * self.h)
 
             # When we are a prover, mark which disjunct is true
-            if self.is_prover:
+            if self.bits is not None:
                 p0.set_simulated(zero_simulated[i])
                 p1.set_simulated(one_simulated[i])
 
@@ -136,6 +138,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
+        self.bits = None
         randomizers = [self.order.random() for _ in range(self.num_bits)]
         precommitment = {}
         precommitment["Cs"] = [r * self.h for r in randomizers]
-- 
2.43.0


From 2761ee9011d9f40c3bcf6f345bddbb3ef2bcdbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 24/36] fix: let or-proofs pass over conjunctions with missing
 secrets

Drawing such a clause raised instead of trying the remaining ones, so proving
failed at random although another clause could be proved.
---
 zksk/composition.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 2acf967..ddd2129 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -508,7 +508,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.chosen_idx = random_gen.choice(possible)
 
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+        valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
         while valid_prover is None:
             possible.remove(self.chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
@@ -516,9 +516,19 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 self.chosen_idx = None
                 return None
             self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+            valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
         return OrProver(self, valid_prover)
 
+    def _get_subprover(self, index, secrets_dict):
+        """
+        Prover of a subproof, or None if some of its secrets are missing.
+        """
+        try:
+            return self.subproofs[index].get_prover(secrets_dict)
+        except ValueError:
+            # Raised for conjunctions
+            return None
+
     def get_verifier(self):
         return OrVerifier(self, [sub.get_verifier() for sub in self.subproofs])
 
-- 
2.43.0


From ed054aa593988f635d902a3576d6b7f1db77337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 25/36] fix: let or-proofs pass over extended clauses with
 missing secrets

As with conjunctions, drawing an inequality, range or signature clause without
values raised although another clause could be proved. The simulated mark of
extended statements was ignored, and two errors were raised by undefined names.
---
 zksk/composition.py            | 17 ++++++++++++++++-
 zksk/extended.py               |  3 +++
 zksk/primitives/bbsplus.py     |  7 ++++++-
 zksk/primitives/dl_notequal.py |  5 ++++-
 zksk/primitives/rangeproof.py  |  3 +++
 5 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index ddd2129..b0b1e3c 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -188,6 +188,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         return self.get_verifier_cls()(self)
 
+    def has_secret_values(self):
+        """
+        Tell if all that is needed to run the proof is known. Override if needed.
+
+        Or-proofs only draw among the clauses for which this is so.
+        """
+        return True
+
     def recompute_commitment(self, challenge, response):
         """
         Compute a pseudo-commitment.
@@ -369,6 +377,9 @@ class _CommonComposedStmtMixin:
             bases.extend(sub.get_bases())
         return bases
 
+    def has_secret_values(self):
+        return all(sub.has_secret_values() for sub in self.subproofs)
+
     def validate_group_orders(self):
         """
         Check that if two secrets are the same, their bases induce groups of the same order.
@@ -440,6 +451,9 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # simulations/execution)
         self.subproofs = [copy.copy(p) for p in list(subproofs)]
 
+    def has_secret_values(self):
+        return any(sub.has_secret_values() for sub in self.subproofs)
+
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
         or_challenges = responses[0]
@@ -491,9 +505,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # TODO: Add a unit test where simulation must be True/False for all subproofs
 
         # Prepare the draw. Disqualify proofs with simulation parameter set to true
+        # and those that lack values
         candidates = {}
         for index, subproof in enumerate(self.subproofs):
-            if not self.subproofs[index].simulated:
+            if not subproof.simulated and subproof.has_secret_values():
                 candidates[index] = subproof
 
         if len(candidates) == 0:
diff --git a/zksk/extended.py b/zksk/extended.py
index 70ba60f..961c411 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -128,6 +128,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         self.secret_values = {}
         self.secret_values.update(secrets_dict)
 
+        if self.simulated:
+            return None
+
         return ExtendedProver(self, self.secret_values)
 
     def get_verifier_cls(self):
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index fd7fe63..8063ec8 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -264,6 +264,11 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def has_secret_values(self):
+        return self.signature is not None and all(
+            secret.value is not None for secret in self.secret_vars
+        )
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
@@ -272,7 +277,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         signature and the Prover's randomness.
         """
         if self.signature is None:
-            raise ValueException("No signature given!")
+            raise ValueError("No signature given!")
 
         # Compute auxiliary commitments A1,A2 as mentioned in the paper. Needs two random values r1,r2 and associated delta1,delta2
         # Set true value to computed secrets
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index d7d3fb7..5f13702 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -48,7 +48,7 @@ class DLNotEqual(ExtendedProofStmt):
 
     def __init__(self, valid_pair, invalid_pair, x, bind=False, simulated=False):
         if len(valid_pair) != 2 or len(invalid_pair) != 2:
-            raise TypeException("The valid_pair and invalid_pair must be pairs")
+            raise TypeError("The valid_pair and invalid_pair must be pairs")
 
         self.x = x
 
@@ -62,6 +62,9 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def has_secret_values(self):
+        return self.x.value is not None
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 8f1fa84..617f3bc 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -82,6 +82,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def has_secret_values(self):
+        return self.is_prover
+
     def precommit(self):
         """
         Commit to the bit-decomposition of the value.
-- 
2.43.0


From b2a0bacb59955c525f07c277618d5b31fbb42c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 26/36] fix: refuse unsupported compositions when verifying,
 too

Only provers checked that no secret is shared over groups of different order or
in and out of a disjunction. For such statements a dishonest prover could use
different values for one secret.
---
 zksk/base.py        |  1 +
 zksk/composition.py | 12 ++++++++++++
 zksk/extended.py    |  4 ++++
 3 files changed, 17 insertions(+)

diff --git a/zksk/base.py b/zksk/base.py
index d99e116..2eb1739 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -208,6 +208,7 @@ class Verifier(metaclass=abc.ABCMeta):
         return self.challenge
 
     def pre_verification_validation(self, response, *args, **kwargs):
+        self.stmt.validate_composition()
         self.stmt.full_validate(*args, **kwargs)
 
         if not self.check_responses_consistency(response, {}):
diff --git a/zksk/composition.py b/zksk/composition.py
index b0b1e3c..86787da 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -257,6 +257,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         # TODO: calling return here is deceptive if we ask to throw an Exception
         return self.validate(*args, **kwargs)
 
+    def validate_composition(self, *args, **kwargs):
+        """
+        Validate that composition is done correctly.
+
+        Does nothing if not overriden.
+        """
+        pass
+
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
         Check if a secret appears both inside an outside an or-proof.
@@ -552,6 +560,8 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         Validate that composition is done correctly.
         """
         self.validate_group_orders()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -788,6 +798,8 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         self.validate_group_orders()
         self.validate_secrets_reoccurence()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
         com = []
diff --git a/zksk/extended.py b/zksk/extended.py
index 961c411..64561e5 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -95,6 +95,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         """
         pass
 
+    def validate_composition(self, *args, **kwargs):
+        if self.constructed_stmt is not None:
+            self.constructed_stmt.validate_composition()
+
     def full_validate(self, *args, **kwargs):
         self.validate(self.precommitment, *args, **kwargs)
 
-- 
2.43.0


From 50dca8e7dd04d4b2de556c51726b2297bd262295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 27/36] fix: accept Python integers beyond 32 bits as secret
 values

---
 zksk/expr.py                   |  3 ++-
 zksk/primitives/dl_notequal.py |  6 ++++--
 zksk/primitives/dlrep.py       |  5 ++---
 zksk/primitives/rangeproof.py  | 12 ++++++------
 zksk/utils/groups.py           | 10 ++++------
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 0110d9c..0684dd8 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -16,6 +16,7 @@ import struct
 import hashlib
 
 from zksk.exceptions import InvalidExpression, IncompleteValuesError
+from zksk.utils import ensure_bn
 
 
 # Simulation seam, off unless ZKSK_SIM is set in the environment: a simulator can install here a
@@ -86,7 +87,7 @@ class Expression:
                 )
 
         def ith_mul(i):
-            return self._secrets[i].value * self._bases[i]
+            return ensure_bn(self._secrets[i].value) * self._bases[i]
 
         summation = ith_mul(0)
         for i in range(1, len(self._secrets)):
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 5f13702..b10ad31 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -17,6 +17,7 @@ from zksk.exceptions import ValidationError
 from zksk.extended import ExtendedProofStmt, ExtendedVerifier
 from zksk.composition import AndProofStmt
 from zksk.primitives.dlrep import DLRep
+from zksk.utils import ensure_bn
 
 
 class DLNotEqual(ExtendedProofStmt):
@@ -71,10 +72,11 @@ class DLNotEqual(ExtendedProofStmt):
         blinder = order.random()
 
         # Set the value of the two internal secrets
-        self.alpha.value = self.x.value * blinder % order
+        x = ensure_bn(self.x.value)
+        self.alpha.value = x * blinder % order
         self.beta.value = -blinder % order
 
-        precommitment = blinder * (self.x.value * self.h - self.lhs[1])
+        precommitment = blinder * (x * self.h - self.lhs[1])
         return precommitment
 
     def construct_stmt(self, precommitment):
diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 3052d68..5bb8351 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -18,7 +18,7 @@ from petlib.bn import Bn
 
 from zksk.base import Verifier, Prover, SimulationTranscript
 from zksk.expr import Secret, Expression
-from zksk.utils import get_random_num
+from zksk.utils import get_random_num, ensure_bn
 from zksk.consts import CHALLENGE_LENGTH
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import IncompleteValuesError, InvalidExpression
@@ -133,8 +133,7 @@ class DLRep(ComposableProofStmt):
 
         # We check everything is indeed a big number, else we cast it
         for name, sec in secrets_dict.items():
-            if not isinstance(sec, Bn):
-                secrets_dict[name] = Bn(sec)
+            secrets_dict[name] = ensure_bn(sec)
 
         return DLRepProver(self, secrets_dict)
 
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 617f3bc..f36377b 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -109,7 +109,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         for r in self.randomizers:
             rand = rand.mod_add(r.value * power, self.order)
             power *= 2
-        rand = rand.mod_sub(self.randomizer.value, self.order)
+        rand = rand.mod_sub(ensure_bn(self.randomizer.value), self.order)
         precommitment["rand"] = rand
 
         return precommitment
@@ -234,11 +234,11 @@ class GenericRangeStmtMaker:
         x1 = Secret()
         x2 = Secret()
         if x.value is not None:
-            x1.value = x.value - a
-            x2.value = x.value - a + offset
+            x1.value = ensure_bn(x.value) - a
+            x2.value = ensure_bn(x.value) - a + offset
 
             # Ensure secret is in range
-            if x.value < a or x.value >= b:
+            if ensure_bn(x.value) < a or ensure_bn(x.value) >= b:
                 warnings.warn("Secret outside of given range [{}, {})".format(a, b))
 
         com_stmt = DLRep(com, x * g + r * h)
@@ -305,8 +305,8 @@ class GenericRangeOnlyStmtMaker:
         x1 = Secret()
         x2 = Secret()
         if x is not None:
-            x1.value = x.value - a
-            x2.value = x.value - a + offset
+            x1.value = ensure_bn(x.value) - a
+            x2.value = ensure_bn(x.value) - a + offset
 
         com_stmt = DLRep(com, x * g + r * h)
         p1 = PowerTwoRangeStmt(
diff --git a/zksk/utils/groups.py b/zksk/utils/groups.py
index 4520762..7502080 100644
--- a/zksk/utils/groups.py
+++ b/zksk/utils/groups.py
@@ -95,13 +95,10 @@ def sum_bn_array(arr, modulus):
     >>> sum_bn_array(a, m)
     2
     """
-    if not isinstance(modulus, Bn):
-        modulus = Bn(modulus)
+    modulus = ensure_bn(modulus)
     res = Bn(0)
     for elem in arr:
-        if not isinstance(elem, Bn):
-            elem = Bn(elem)
-        res = res.mod_add(elem, modulus)
+        res = res.mod_add(ensure_bn(elem), modulus)
     return res
 
 
@@ -117,4 +114,5 @@ def ensure_bn(x):
     if isinstance(x, Bn):
         return x
     else:
-        return Bn(x)
+        # The constructor of Bn is limited to machine words.
+        return Bn.from_decimal(str(x))
-- 
2.43.0


From 11d4132ce93669099920ad746584f687f8f827f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 28/36] fix: refuse unknown curves when reading proofs instead
 of crashing

---
 zksk/base.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/zksk/base.py b/zksk/base.py
index 2eb1739..8eda02e 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -18,6 +18,29 @@ from zksk.utils import get_random_num
 from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import ValidationError
 
+# Codes of groups and points in petlib's encoding.
+EC_GROUP_CODE, EC_POINT_CODE = 1, 2
+
+
+def _decode_received(packed):
+    """
+    Decode data from an untrusted source.
+
+    Making a group of an unknown curve crashes the interpreter, so look at the curves before.
+    """
+    curves = EcGroup.list_curves()
+
+    def check_curve(code, data):
+        if code in (EC_GROUP_CODE, EC_POINT_CODE):
+            nid = msgpack.unpackb(data)
+            if code == EC_POINT_CODE:
+                nid = nid[0]
+            if nid not in curves:
+                raise ValueError("Unknown curve: {}".format(nid))
+
+    msgpack.unpackb(packed, ext_hook=check_curve)
+    return decode(packed)
+
 
 @attr.s
 class NIZK:
@@ -49,7 +72,7 @@ class NIZK:
         """
         Deserialize a non-interactive zero-knowledge proof.
         """
-        as_list = [decode(x) for x in msgpack.unpackb(nizk_raw)]
+        as_list = [_decode_received(x) for x in msgpack.unpackb(nizk_raw)]
         return NIZK(*as_list)
 
 
-- 
2.43.0


From 3f00235eb95630f1427ec04743ededa8908a67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 29/36] fix: give occurrences of one power-two range statement
 their own randomizers

---
 zksk/primitives/rangeproof.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index f36377b..a346a73 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -82,6 +82,14 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def __copy__(self):
+        """
+        Copy with own randomizers, so that occurrences of a statement can be proved together.
+        """
+        clone = super().__copy__()
+        clone.randomizers = [Secret() for _ in range(self.num_bits)]
+        return clone
+
     def has_secret_values(self):
         return self.is_prover
 
-- 
2.43.0


From 3580330808e0de2da088d708af066fc4452403e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 30/36] fix: refuse secrets inside and outside a disjunction of
 a user-defined primitive

---
 zksk/extended.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 64561e5..7d19c34 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -99,6 +99,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         if self.constructed_stmt is not None:
             self.constructed_stmt.validate_composition()
 
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        if self.constructed_stmt is not None:
+            self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
+
     def full_validate(self, *args, **kwargs):
         self.validate(self.precommitment, *args, **kwargs)
 
-- 
2.43.0


From f5950ea884e95823d20b8c96f2894983c59a5ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 31/36] fix: verify non-interactive proofs on a copy of the
 statement

---
 zksk/composition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 86787da..eba5011 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -225,7 +225,9 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Verify a non-interactive proof.
         """
-        verifier = self.get_verifier()
+        # Verifying a proof with precommitments completes the statement. Do so on a copy, so that
+        # several proofs of one statement can be verified at the same time.
+        verifier = copy.copy(self).get_verifier()
         return verifier.verify_nizk(nizk, message)
 
     def check_statement(self, statement_hash):
-- 
2.43.0


From 122a8627d68f2a1afadef70e190da75d74fe66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:19 +0000
Subject: [PATCH 32/36] fix: provers of a representation keep their own values

---
 zksk/primitives/dlrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 5bb8351..4d094c0 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -120,7 +120,8 @@ class DLRep(ComposableProofStmt):
 
         # First we update the dictionary we have with the additional secrets, and process it
         self.secret_values.update(secrets_dict)
-        secrets_dict = self.secret_values
+        # Copies of this statement extend the same dictionary, maybe while this prover is in use.
+        secrets_dict = dict(self.secret_values)
         # If missing secrets or simulation parameter set, return now
         if (
             self.simulated
-- 
2.43.0


From da00cf067a6cfc860f3c6c070c965be8bc81a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 33/36] fix: provers of a disjunction keep their own choice of
 a clause

---
 zksk/composition.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index eba5011..cf42c5f 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -530,19 +530,23 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # from the list of possible proofs and try again
         random_gen = random.SystemRandom()
         possible = list(candidates.keys())
-        self.chosen_idx = random_gen.choice(possible)
+        chosen_idx = random_gen.choice(possible)
 
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
+        valid_prover = self._get_subprover(chosen_idx, secrets_dict)
         while valid_prover is None:
-            possible.remove(self.chosen_idx)
+            possible.remove(chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
             if len(possible) == 0:
                 self.chosen_idx = None
                 return None
-            self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
-        return OrProver(self, valid_prover)
+            chosen_idx = random_gen.choice(possible)
+            valid_prover = self._get_subprover(chosen_idx, secrets_dict)
+
+        # Another prover of this statement could be choosing at the same time, so the prover does not
+        # depend on this attribute.
+        self.chosen_idx = chosen_idx
+        return OrProver(self, valid_prover, chosen_idx)
 
     def _get_subprover(self, index, secrets_dict):
         """
@@ -640,10 +644,10 @@ class OrProver(Prover):
     stores them.
     """
 
-    def __init__(self, stmt, subprover):
+    def __init__(self, stmt, subprover, true_prover_idx):
         self.subprover = subprover
         self.stmt = stmt
-        self.true_prover_idx = self.stmt.chosen_idx
+        self.true_prover_idx = true_prover_idx
 
         # Create a list storing the SimulationTranscripts
         self.setup_simulations()
-- 
2.43.0


From daeb8413d912ec1d935dde94c4bcb68bab3c1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 34/36] fix: the name makes the secret when responses are
 compared

Two Secret objects of one name at the verifier, one of which holds a value,
were looked up as different secrets, so a proof with different values for
one secret was accepted.
---
 zksk/primitives/dlrep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 4d094c0..b901de5 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -45,6 +45,8 @@ class DLRepVerifier(Verifier):
             responses_dict = {}
 
         for i, s in enumerate(self.stmt.secret_vars):
+            # The name makes the secret, whatever value this object holds.
+            s = Secret(name=s.name)
             if s in responses_dict.keys():
                 if responses[i] != responses_dict[s]:
                     return False
-- 
2.43.0


From 3ea8e4246fa979cfbcac5d013c853389c82c056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 35/36] fix: compare secrets by name when validating
 compositions

The checks for one group per secret and for secrets used inside and outside
of an or-proof compared Secret objects by name and value, so objects of one
name holding different values passed.
---
 zksk/composition.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index cf42c5f..760fa8b 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -410,8 +410,8 @@ class _CommonComposedStmtMixin:
 
         # We map the unique secrets to the indices where they appear
         mydict = defaultdict(list)
-        for index, word in enumerate(secrets):
-            mydict[word].append(index)
+        for index, secret in enumerate(secrets):
+            mydict[secret.name].append(index)
 
         # Now we use this dictionary to check all the bases related to a particular secret live in
         # the same group
@@ -582,12 +582,14 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             :py:class:`exceptions.InvalidSecretsError`: If any secrets re-occur in an
                 unsupported way.
         """
-        secret_vars = self.get_secret_vars()
         if forbidden_secrets is None:
             return
 
-        for secret in set(secret_vars):
-            if forbidden_secrets.count(secret) > secret_vars.count(secret):
+        # Compare names, as objects of one name can hold different values.
+        names = [secret.name for secret in self.get_secret_vars()]
+        forbidden_names = [secret.name for secret in forbidden_secrets]
+        for name in set(names):
+            if forbidden_names.count(name) > names.count(name):
                 raise InvalidSecretsError(
                     "Invalid secrets found. Try to flatten the proof to avoid "
                     "using secrets used inside an or-proof in other parts of "
-- 
2.43.0


From 95611446095d9fb12aa1bd2d88bd6e2f5a12e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 36/36] fix: occurrences of a non-binding signature proof share
 no slots for e and s

A non-binding BBSPlusSignatureStmt used twice in a conjunction shared the secrets it makes for e and s, so the statement
differed from the one a verifier builds of two statements, which refused the proof.
---
 zksk/primitives/bbsplus.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 8063ec8..a568307 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -239,6 +239,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
     def __init__(self, secret_vars, pk, signature=None, binding=True, simulated=False):
         self.pk = pk
         self.signature = signature
+        self.binding = binding
         if not binding:
             # We add two Secret slots for e and s if necessary
             secret_vars = [Secret(), Secret()] + secret_vars
@@ -264,6 +265,14 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def __copy__(self):
+        clone = super().__copy__()
+        if not self.binding:
+            # The slots for e and s belong to one occurrence of the statement, too.
+            e, s, *messages = self.secret_vars
+            clone.secret_vars = [Secret(e.value), Secret(s.value)] + messages
+        return clone
+
     def has_secret_values(self):
         return self.signature is not None and all(
             secret.value is not None for secret in self.secret_vars
-- 
2.43.0

