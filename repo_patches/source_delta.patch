From cce7a167c5881eeb39cc73b73b91b9d9e38b9a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 01/50] fix: keep every bit of a value that spans two words of
 a BitQueue

The second half of a split enqueue was taken from the first bit again, and the
second half of a split dequeue overwrote the first one, so word sizes that do
not divide 32 (or that change, as in the forward constraint solution) lost data.
---
 semantic_codec/architecture/bits.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..5f9142b 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -18,22 +18,23 @@ class BitQueue(object):
         Bits.check_range(0, from_bit)
 
         if self._eq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
-            w = max(0, BitQueue.WORD_SIZE - self._eq_bit - 1)
+            # The bits do not fit in the current word: fill it and put the remaining ones in the next word
+            value >>= from_bit
+            w = BitQueue.WORD_SIZE - self._eq_bit
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+                                                        0, w - 1, self._eq_bit)
             self._eq_word += 1
             self._bytes.append(0)
 
-            w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            self._eq_bit = self.word_size - w
+            self._bytes[self._eq_word] = Bits.copy_bits(value >> w, self._bytes[self._eq_word],
+                                                        0, self._eq_bit - 1, 0)
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
                                                         from_bit, w, self._eq_bit)
+            self._eq_bit += self.word_size
 
-        self._eq_bit += self.word_size
         if self._eq_bit > BitQueue.WORD_SIZE - 1:
             self._eq_bit -= BitQueue.WORD_SIZE
             self._eq_word += 1
@@ -55,9 +56,12 @@ class BitQueue(object):
             self._bytes.pop(0)
             self._eq_word -= 1
 
-            w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
+            # The remaining bits go after the ones already copied (unless they are beyond the end of the value)
+            to_bit += w
+            w = self.word_size - w
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            if to_bit < BitQueue.WORD_SIZE:
+                value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From b2966937140e33f300a84c548b130b4b5b98b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 02/50] fix: deinterleave every chunk received and only fail
 when no packet arrived

The loop followed the last packet of the order only: the remaining chunks of
the other packets were dropped when the data did not fill the last round, a
single packet (or a single survivor at the first place) was taken for a total
loss, a deleted last packet raised KeyError and a total loss AttributeError.
---
 semantic_codec/interleaver/interleaver2d.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..2cd1681 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,25 +195,20 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [packets[p] for p in interleave_order if p in packets and packets[p] is not None]
+    if not received:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
 
     errors = []
 
     data = BitQueue(word_size)
-    while not last_queue.empty():
+    # Some packets may carry one chunk more than the others, so go on until all of them are empty
+    while not all(q.empty() for q in received):
         for p in interleave_order:
             a = 0
             if not p in packets or packets[p] is None:
                 errors.append((data._eq_word, data._eq_bit))
-            else:
+            elif not packets[p].empty():
                 a = packets[p].dequeue(a, 0)
             data.enqueue(a, 0)
 
-- 
2.43.0


From 7d6f64939d8b06976bb5f787f93d0c609ed8ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 03/50] fix: predict the losses of all packets whatever the
 order they are listed in

The loop stopped when the first packet of the list had no more bits, so the
last chunks of packets sent before it were not predicted.
---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..c912f46 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -245,7 +245,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while min(b) < total_bits:
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From 4273c25d8758018aeb6d57fd9fcb95a0bbb03bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 04/50] fix: leave the program as it is when the lost packets
 carried no data

---
 semantic_codec/corruption/corruptors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..03ecc23 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -85,7 +85,7 @@ class PacketCorruptor(Corruptor):
         errors.sort(key=lambda x: x[0] * vv + x[1])
 
         # Corrupt the program
-        k, tuples, e = 0, [], errors[0]
+        k, tuples, e = 0, [], errors[0] if errors else (0, 0)
         current = e[0]
 
         # Create a nice progress bar. TODO: Factor this out so other widgets can be used as well.
@@ -93,7 +93,7 @@ class PacketCorruptor(Corruptor):
                                        prefix='Corrupting:',
                                        decimals=0, bar_length=50, print_dist=4)
 
-        while k <= len(errors):
+        while errors and k <= len(errors):
             if current != e[0] or k == len(errors):
                 if len(tuples) != 0 and current < len(addresses):
                     address = addresses[current]
-- 
2.43.0


From 0478e61ca721e0170098e9a393c9c1154bd60c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 05/50] fix: give an instruction no repeated candidates when
 its lost bits are reported twice

---
 semantic_codec/corruption/corruptors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 03ecc23..07ba0ba 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -54,12 +54,13 @@ class PacketCorruptor(Corruptor):
         self.corrupted_program_path = save_corrupted_path
 
     def _corrupt_address(self, tuples, address, program):
-        corrupted = []
+        corrupted, encodings = [], set()
         for inst in program[address]:
             for c_inst in corrupt_all_bits_tuples(tuples, inst.encoding):
-                arm_inst = CAPSInstruction(c_inst, program[address][0].address)
-                if not arm_inst in corrupted:
-                    corrupted.append(arm_inst)
+                # Some bits may be reported lost more than once
+                if c_inst not in encodings:
+                    encodings.add(c_inst)
+                    corrupted.append(CAPSInstruction(c_inst, program[address][0].address))
         program[address] = corrupted
 
     def corrupt(self, program):
-- 
2.43.0


From 0fa7243f690e71ec6acbf310c7bed66cd66e9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 06/50] fix: enumerate every combination of three or more
 corrupted bits

---
 semantic_codec/corruption/corruption.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index c912f46..a7e1116 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -101,10 +101,9 @@ def corrupt_bits(hi, lo, amount, instruction):
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if i & (1 << j) else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
-- 
2.43.0


From b23f41a89ca55bca77f4afced582de08e6448c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 07/50] fix: corrupt programs with address gaps and refuse
 percentages out of range

---
 semantic_codec/corruption/corruption.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index a7e1116..ca56d5d 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -150,7 +150,7 @@ def corrupt_program(program, err_percent, max_amount):
     :param max_amount: Maximal amount of bit errors per instructions, meaning that each corrupted instructions can
                        have up to this amount of errors
     """
-    if 0 > err_percent > 100:
+    if not 0 <= err_percent <= 100:
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
@@ -160,21 +160,14 @@ def corrupt_program(program, err_percent, max_amount):
 
     corrupted_amount = math.ceil(max(1, len_program * err_percent))
 
-    # Find the min and max address in the program
-    min_addr = sys.maxsize
-    max_addr = -sys.maxsize
-    for k in program:
-        min_addr = k if min_addr > k else min_addr
-        max_addr = k if max_addr < k else max_addr
-
-    while corrupted_amount > 0:
-        p = random.randint(0, len_program) * 4 + min_addr
-        if p in program and len(program[p]) == 1:
-            a = random.randint(1, max_amount)
-            for r in corrupt_bits(31, 0, a, program[p][0].encoding):
-                if _encoding_not_in_list(r, program[p]):
-                    program[p].append(CAPSInstruction(r, program[p][0].address))
-            corrupted_amount -= 1
+    # Pick among the addresses that are still intact, they are not necessarily contiguous
+    intact = [p for p in sorted(program) if len(program[p]) == 1]
+
+    for p in random.sample(intact, min(corrupted_amount, len(intact))):
+        a = random.randint(1, max_amount)
+        for r in corrupt_bits(31, 0, a, program[p][0].encoding):
+            if _encoding_not_in_list(r, program[p]):
+                program[p].append(CAPSInstruction(r, program[p][0].address))
 
 
 def _encoding_not_in_list(encoding, instructions):
-- 
2.43.0


From b5be6fdf4978c94c3be20e2152e3db6baa38b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 08/50] fix: do not discard instructions without a register
 score while recovering

---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..cef0f95 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -109,7 +109,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Conditional register score
     pc = scores_dict['pc'] if 'pc' in scores_dict else 1
     # Register score
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
     # Register distance score
     prd = scores_dict['prd'] if 'prd' in scores_dict else 1
     # Opcode score
@@ -123,7 +123,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
 
     hi = max(pc, po, pr)
     # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From c19ff755568121647f28b584c9792273613abc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 09/50] fix: do not take a candidate as certain only because of
 its registers

---
 semantic_codec/metadata/recuperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index cef0f95..4040812 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -121,9 +121,9 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Branch distance score
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
-    hi = max(pc, po, pr)
-    # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
+    # A conditional or an opcode with score 1 is the only one possible at the address. A register is not: the original
+    # may use it along with others
+    hi = max(pc, po)
 
     if hi == 1 and lo != 0:
         score = 1
-- 
2.43.0


From a091a865a6439827d8a9577912edc7c8589f26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 10/50] fix: multiply the candidates of each address to count
 the solutions

---
 semantic_codec/solution/solution_quality.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..e043252 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -69,9 +69,9 @@ class SolutionQuality(object):
                 bins[k] = 1
 
         i = 1
-        amount = 0
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
@@ -82,7 +82,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
-- 
2.43.0


From c44bd4797f7786dc055c81e330567c7eaf921b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 11/50] fix: use enough bits for the index of every candidate
 in the solution

---
 semantic_codec/solution/solution_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..5dae655 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -251,7 +251,7 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            size = (ln - 1).bit_length()
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From 3eac7c7447a08f9ef07ab31a73943034c59f433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 12/50] fix: report on programs without corrupted instructions

---
 recover_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recover_program.py b/recover_program.py
index d773027..62bbc63 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -116,7 +116,7 @@ def print_report(instructions_output_file, original_program, recovered_program):
     print("------------")
 
     print("ERRORS: {} -- LOSING: {} -- TIDE: {} --RECOVERED: {} -- RATIO: {} ".format(
-        errors, fail_looses, fail_tide, recovered, recovered / errors))
+        errors, fail_looses, fail_tide, recovered, recovered / errors if errors > 0 else 1))
 
     print("DEPTHS: {}".format(depths))
 
-- 
2.43.0


From ab48f68f56d50b0539ae1cc80bb4746b5c71b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 13/50] fix: identify the original among the candidates by its
 encoding, not by its text

---
 semantic_codec/solution/solution_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index 5dae655..ff74720 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -171,7 +171,7 @@ class AbstractForwardConstraintSolutionBuilder(object):
 
     def _find_address_correct_index(self, pa, ori, ln):
         index = 0
-        while index < ln and str(pa[index]) != str(ori):
+        while index < ln and pa[index].encoding != ori.encoding:
             index += 1
         if index == ln:
             raise RuntimeError('Impossible')
-- 
2.43.0


From 1f8562b4426fd8b3e2fe1f55416c05a607676041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 14/50] fix: also remove the first of the lost bits when
 compressing

---
 semantic_codec/compressor/shiftcompressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 46366e9..010b67c 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -30,7 +30,7 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
             del a[k:k + self._shift_count]
@@ -53,7 +53,7 @@ class SwapCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             if len(r) > 2:
                 continue
-- 
2.43.0


From f8f1b2a079c5b8c9df1ae6121bd9254cc50e2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 15/50] fix: give a jumping address only to direct branches, as
 a 32-bit address

---
 semantic_codec/architecture/capstone_instruction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..bc65237 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -170,9 +170,11 @@ class CAPSInstruction(Instruction):
         """
         if self.is_branch:
             if self._jumping_address is None:
-                for op in self._cap.operands:
+                # An immediate of any other instruction, i.e. add pc, pc, #8, is not the address it branches to
+                operands = self._cap.operands if self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX] else []
+                for op in operands:
                     if op.type == ARM_OP_IMM:
-                        self._jumping_address = op.value.imm
+                        self._jumping_address = op.value.imm & 0xffffffff
                         break
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
-- 
2.43.0


From 94d7f5cd8fad8dba3721ceedda0d51f79ca4a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 16/50] fix: only BL and BLX are branches with link

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index bc65237..349477f 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -149,6 +149,10 @@ class CAPSInstruction(Instruction):
         return self.opcode_field in [ARM_INS_B, ARM_INS_BX, ARM_INS_BL, ARM_INS_BLX] or \
                AReg.PC in self.registers_written()
 
+    @property
+    def is_branch_with_link(self):
+        return self.opcode_field in [ARM_INS_BL, ARM_INS_BLX]
+
     @property
     def is_push_pop(self):
         return self._inst_is('push') or self._inst_is('pop')
-- 
2.43.0


From b557015dc6d8f84de9ad59f386db89e570254d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 17/50] fix: count R0 when it is the base or the index of a
 memory access

---
 semantic_codec/architecture/capstone_instruction.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 349477f..4c0cfb6 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -68,12 +68,10 @@ class CAPSInstruction(Instruction):
                 if not register in result:
                     result.append(register)
             if i.type == ARM_OP_MEM:
-                register = AReg.CAPSTONE_REGS[i.value.mem.base]
-                if register != 0 and not register in result:
-                    result.append(register)
-                register = AReg.CAPSTONE_REGS[i.value.mem.index]
-                if register != 0 and not register in result:
-                    result.append(register)
+                for reg in [i.value.mem.base, i.value.mem.index]:
+                    # Capstone uses zero for 'no register'
+                    if reg != 0 and not AReg.CAPSTONE_REGS[reg] in result:
+                        result.append(AReg.CAPSTONE_REGS[reg])
 
         return result
 
-- 
2.43.0


From bf12efa56dc0f76619be72cd1954ba9f8bb65f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 18/50] fix: count the register holding a shift amount as used

---
 semantic_codec/architecture/capstone_instruction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 4c0cfb6..a0e069c 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM
+    ARM_INS_STRBT, ARM_OP_IMM, ARM_SFT_ASR_REG
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -67,6 +67,9 @@ class CAPSInstruction(Instruction):
                     register = AReg.CAPSTONE_REGS[i.value.reg]
                 if not register in result:
                     result.append(register)
+                if i.shift.type >= ARM_SFT_ASR_REG and not AReg.CAPSTONE_REGS[i.shift.value] in result:
+                    # The amount of the shift is in a register too
+                    result.append(AReg.CAPSTONE_REGS[i.shift.value])
             if i.type == ARM_OP_MEM:
                 for reg in [i.value.mem.base, i.value.mem.index]:
                     # Capstone uses zero for 'no register'
-- 
2.43.0


From 2e3ca3b0d1ccf54de832ca02bdc3095b5013439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 19/50] fix: recognize the instructions that write to memory

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index a0e069c..fc78ad5 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM, ARM_SFT_ASR_REG
+    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -133,7 +133,7 @@ class CAPSInstruction(Instruction):
 
     def _writes_to_memory(self):
         # If its an store
-        return ARM_INS_STR >= self._cap.id >= ARM_INS_STRBT
+        return ARM_INS_STR <= self._cap.id <= ARM_INS_STRT
 
     def _read_from_memory(self):
         for op in self._cap.operands:
-- 
2.43.0


From 7a90fe329b6fbbcda38450bf33436cf87799101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 20/50] fix: tell the registers read from the registers written
 by their operands

---
 .../architecture/capstone_instruction.py      | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index fc78ad5..ee05960 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,8 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG
+    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_INS_CMP, ARM_INS_CMN, ARM_INS_TST, ARM_INS_TEQ, \
+    ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -59,7 +60,19 @@ class CAPSInstruction(Instruction):
         if self.is_push_pop:
             result.append(AReg.SP)
 
-        for i in self._cap.operands:
+        for register in self._operands_registers(self._cap.operands):
+            if not register in result:
+                result.append(register)
+
+        return result
+
+    @staticmethod
+    def _operands_registers(operands):
+        """
+        Returns the registers in a list of operands
+        """
+        result = []
+        for i in operands:
             if i.type == ARM_OP_REG:
                 if i.value.reg not in AReg.CAPSTONE_REGS:
                     register = AReg.STORAGE_COUNT + i.value.reg
@@ -88,7 +101,18 @@ class CAPSInstruction(Instruction):
         elif self.is_a('push'):
             return []
         else:
-            return self.registers_used()[:1]
+            return self._operands_registers(self._cap.operands[:self._written_operands()])
+
+    def _written_operands(self):
+        """
+        Returns how many operands are written, they are the first ones
+        """
+        if self.is_a('push') or self._cap.id in [ARM_INS_CMP, ARM_INS_CMN, ARM_INS_TST, ARM_INS_TEQ,
+                                                 ARM_INS_B, ARM_INS_BX, ARM_INS_BL, ARM_INS_BLX]:
+            return 0
+        if self._cap.id in [ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL]:
+            return 2
+        return 1
 
     def registers_read(self):
         """
@@ -99,7 +123,8 @@ class CAPSInstruction(Instruction):
         if self.is_a('pop'):
             result = []
         else:
-            result = self.registers_used()[1:]
+            # The first operand is written, yet it may also be one of the others, i.e. add r0, r0, #1
+            result = self._operands_registers(self._cap.operands[self._written_operands():])
 
         if self.is_push_pop and not AReg.SP in result:
             result.append(AReg.SP)
-- 
2.43.0


From cc4b83a79b79f9728229c4e1fdb4c14926f86a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 21/50] fix: a load multiple writes its registers and a store
 multiple reads them

---
 semantic_codec/architecture/capstone_instruction.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index ee05960..2541226 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -3,7 +3,8 @@ import struct
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_INS_CMP, ARM_INS_CMN, ARM_INS_TST, ARM_INS_TEQ, \
-    ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL
+    ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, \
+    ARM_INS_STMIB, ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -100,6 +101,11 @@ class CAPSInstruction(Instruction):
             return self.registers_used()
         elif self.is_a('push'):
             return []
+        elif self._cap.id in [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB]:
+            # The first operand is the base, the others are loaded
+            return self._operands_registers(self._cap.operands[0 if self._cap.writeback else 1:])
+        elif self._cap.id in [ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB]:
+            return self._operands_registers(self._cap.operands[:1]) if self._cap.writeback else []
         else:
             return self._operands_registers(self._cap.operands[:self._written_operands()])
 
@@ -122,6 +128,10 @@ class CAPSInstruction(Instruction):
 
         if self.is_a('pop'):
             result = []
+        elif self._cap.id in [ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB]:
+            result = self._operands_registers(self._cap.operands[:1])
+        elif self._cap.id in [ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, ARM_INS_STMIB]:
+            result = self._operands_registers(self._cap.operands)
         else:
             # The first operand is written, yet it may also be one of the others, i.e. add r0, r0, #1
             result = self._operands_registers(self._cap.operands[self._written_operands():])
-- 
2.43.0


From 2153e8b84b2ee64c735ed021fd9b3f3b77aba155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 22/50] fix: link forward jumps, call returns and skipped
 instructions in the control flow graph

---
 semantic_codec/static_analysis/cfg.py | 40 +++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 806d0ca..73d30e8 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -84,6 +84,7 @@ class ARMControlFlowGraph(digraph):
         if index > 0:
             up = self._add_node(CFGBlock(split.instructions[:index]))
             split.instructions = split.instructions[index:]
+            up.conditional = split.conditional
             successors = []
             successors.extend(self.incidents(split))
             for i in successors:
@@ -92,6 +93,9 @@ class ARMControlFlowGraph(digraph):
             self.add_edge((up, split))
 
         self.add_edge((branch, split))
+        if split.conditional is not None:
+            # The instruction may as well not be executed
+            self._add_multiple_edges(split.conditional, [branch])
 
     def _branch_conditional(self, inst, cb, last_conditional):
         """
@@ -101,36 +105,39 @@ class ARMControlFlowGraph(digraph):
         # Create a new block and add it to the graph
         b = self._add_node(CFGBlock(inst))
         r = self
+        jumps = self._pending_jumps.pop(inst, [])
         # Case 2.1 the new condition is not ALWAYS, therefore a new conditional node must be created
         if inst.conditional_field != (AOpType.COND_ALWAYS):
             # Create the new conditional field
             new_cond = self._add_node(CFGBlock([], kind=CFGBlock.COND))
             # Add an outgoing edge to the new block from the conditional
             r.add_edge((new_cond, b))
+            b.conditional = new_cond
 
             # if the last block is a branch, we cannot receive control from it
             # therefore only add and edge if is not a branch
-            if not cb.last_is_branch:
+            if cb is not None:
                 r.add_edge((cb, new_cond))
 
             # if a previous conditional existed, we must connect them both
             if last_conditional is not None and not r.has_edge((last_conditional, new_cond)):
                 r.add_edge((last_conditional, new_cond))
 
-            if inst in self._pending_jumps:
-                self._add_multiple_edges(new_cond, self._pending_jumps[inst])
+            self._add_multiple_edges(new_cond, jumps)
 
             # Make the las conditional seen this conditional node
             return b, new_cond
         else:
             # If the new conditional is ALWAYS, then, there is no need for a conditional node,
             # just jump to here, unless of course the previous node was a branch
-            if not cb.last_is_branch:
+            if cb is not None:
                 r.add_edge((cb, b))
             # Make the last conditional jump here
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
                 r.add_edge((last_conditional, b))
 
+            self._add_multiple_edges(b, jumps)
+
             # There no need for a last conditional node since the last block was not conditionally executed
             return b, None
 
@@ -152,6 +159,7 @@ class ARMControlFlowGraph(digraph):
     def _branch_instruction(self, cb, branch, inst, end):
         """
         Creates a branch in the CFG due to a branching instruction
+        :return: The node giving control to the next instruction, None if there is no such node
         """
         # ----------------------------
         # Third case, the BRANCHES
@@ -163,6 +171,7 @@ class ARMControlFlowGraph(digraph):
             branch = self._add_node(CFGBlock([inst]))
         if cb is not None:
             r.add_edge((cb, branch))
+            cb = None
 
         # Find the instruction where we are going to branch to
         # It may be None as is not possible to find out using an static analysis
@@ -187,10 +196,7 @@ class ARMControlFlowGraph(digraph):
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
                 # the node is not built yet
-                self._add_pending_jump(inst, branch)
-            elif to_node.kind == CFGBlock.COND:
-                # the node is a conditional
-                self.add_edge(branch, to_node)
+                self._add_pending_jump(instruction_to_branch, branch)
             else:
                 # the node is a block of instructions
                 self._split_node(to_node, branch, instruction_to_branch)
@@ -261,18 +267,13 @@ class ARMControlFlowGraph(digraph):
             inst = self._instructions[i]
             if inst.is_undefined:
                 continue  # Ignore undefined instructions
-            if inst.conditional_field == last_cond_field:
+            if inst.conditional_field == last_cond_field and inst not in self._pending_jumps:
                 last_cond_field = inst.conditional_field
                 # First case, just add the instruction to the current block
                 # unless the current instruction is a branch:
                 if inst.is_branch:
                     cb = self._branch_instruction(cb, None, inst, end)
                     last_cond_field = None
-                elif inst in self._pending_jumps:
-                    b = self._add_node(CFGBlock([inst]))
-                    self._add_multiple_edges(b, self._pending_jumps[inst])
-                    r.add_edge((cb, b))
-                    cb = b
                 else:
                     cb.instructions.append(inst)
             else:
@@ -281,10 +282,13 @@ class ARMControlFlowGraph(digraph):
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-                    self._branch_instruction(None, cb, inst, end)
+                    cb = self._branch_instruction(None, cb, inst, end)
+                    last_cond_field = None
 
-        if not r.has_edge((cb, end)):
-            r.add_edge((cb, end))
+        # The last instruction may not be executed
+        for last in [cb, last_cond_node]:
+            if last is not None and not r.has_edge((last, end)):
+                r.add_edge((last, end))
         return self
 
 
@@ -328,6 +332,8 @@ class CFGBlock(object):
         # Predecessors and successors in the CFG graph
         self.successors = []
         self.predecessors = []
+        # The conditional node deciding if this block is executed
+        self.conditional = None
 
         # The phi functions of this node. Each entry in the dictionary is a phi function where the
         # key is the variable being assigned and the elements in the list are the parameters of the function
-- 
2.43.0


From ea2f33ed29dbcbf7e29070ecfbf81dfe43abb261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 23/50] fix: number the nodes in preorder and leave out the
 unreachable ones to find dominators

---
 semantic_codec/static_analysis/cfg.py        |  6 ++++
 semantic_codec/static_analysis/dominators.py | 33 +++++++++++++-------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 73d30e8..d2df3d8 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -340,6 +340,12 @@ class CFGBlock(object):
         # i.e. phi_functions[key] <- phi( phi_functions[key][0], ... phi_functions[key][n])
         self.phi_functions = {}
 
+        self.reset_dominators()
+
+    def reset_dominators(self):
+        """
+        Forgets the dominators, for instance to compute them again
+        """
         # Data relative to the Dominator tree
         self.dom_idx = -1
         # Parent in the DFS tree needed to find the dominator
diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index ab8e497..cb3e030 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -1,19 +1,28 @@
 from pygraph.classes.digraph import digraph
 
 
-def dominator_tree_dfs(graph, node, visited, index=0):
+def dominator_tree_dfs(graph, root):
     """
-    Makes the lengauer tarjan dominator tree algorithm Deep First Search
+    Makes the lengauer tarjan dominator tree algorithm Deep First Search. Numbers the nodes in preorder
     """
-    result = [node]
-    node.dom_idx = index
-    node.predecessors = graph.incidents(node)
-    node.successors = graph.neighbors(node)
-    visited.append(node)
-    for n in node.successors:
-        if n not in visited:
-            n.dom_parent = node
-            result.extend(dominator_tree_dfs(graph, n, visited, index + 1))
+    for node in graph:
+        node.reset_dominators()
+
+    result, visited, pending = [], set(), [(root, None)]
+    while pending:
+        node, parent = pending.pop()
+        if node in visited:
+            continue
+        visited.add(node)
+        node.dom_idx = len(result)
+        node.dom_parent = parent
+        node.successors = graph.neighbors(node)
+        result.append(node)
+        pending.extend((n, node) for n in reversed(node.successors))
+
+    for node in result:
+        # Nodes that cannot be reached from the root dominate nothing
+        node.predecessors = [p for p in graph.incidents(node) if p in visited]
 
     return result
 
@@ -23,7 +32,7 @@ def build_dominator_tree(graph, root):
     Builds the Lengauer Tarjan dominator tree algorithm
     """
     # Initialization
-    vertex = dominator_tree_dfs(graph, root, [])
+    vertex = dominator_tree_dfs(graph, root)
 
     for i in range(len(vertex) - 1, 0, -1):
         w = vertex[i]
-- 
2.43.0


From 7b653578bc6525e15532c891da073d00ece5a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 24/50] fix: forget the SSA names given in a node when leaving
 it

---
 semantic_codec/static_analysis/ssa.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 6708f3e..d124b90 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -161,7 +161,12 @@ class SSAFormBuilder(object):
         """
         counter = {}
         stack = {}
-        for v in range(0, AReg.STORAGE_COUNT):
+        storages = set(range(0, AReg.STORAGE_COUNT))
+        for n in self._graph:
+            for inst in n.instructions:
+                # Some instructions use registers beyond the storages, i.e. the floating point ones
+                storages.update(inst.storages_read(), inst.storages_written())
+        for v in storages:
             counter[v] = 0
             stack[v] = [0]
 
@@ -195,16 +200,15 @@ class SSAFormBuilder(object):
                 val.append((var, stack[var][0]))
 
         # Continue the renaming process in the successors
-        for n in n.dom_successors:
-            self._rename_node(n, counter, stack)
+        for s in n.dom_successors:
+            self._rename_node(s, counter, stack)
 
-        # Roll back the indexing
-        for phi in n.phi_functions:
-            var = phi[0]
-            for inst in n.instructions:
-                if var in inst.storages_written():
-                    stack[var].pop()
-            stack[var].pop()
+        # Roll back the indexing: forget the names given in this node
+        for var, index in n.phi_functions:
+            stack[var].pop(0)
+        for inst in n.instructions:
+            for var, index in inst.ssa_written:
+                stack[var].pop(0)
 
     def _remove_dead_phi(self):
         """
-- 
2.43.0


From 22eec6bf282cd1c4ce4654958611f5dc8726d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 25/50] fix: export every edge of the graphs whose node names
 contain dashes

---
 libs/dot/dotio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index fbd31bd..45a90a1 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -145,10 +145,10 @@ def write(G, weighted=False):
     #  our own set to keep track of what's been added or not.
     seen_edges = set([])
     for edge_from, edge_to in G.edges():
-        if (str(edge_from) + "-" + str(edge_to)) in seen_edges:
+        if (str(edge_from), str(edge_to)) in seen_edges:
             continue
 
-        if (not directed) and (str(edge_to) + "-" + str(edge_from)) in seen_edges:
+        if (not directed) and (str(edge_to), str(edge_from)) in seen_edges:
             continue
 
         attr_list = {}
@@ -168,7 +168,7 @@ def write(G, weighted=False):
 
         dotG.add_edge(newEdge)
 
-        seen_edges.add(str(edge_from) + "-" + str(edge_to))
+        seen_edges.add((str(edge_from), str(edge_to)))
 
     return dotG.to_string()
 
-- 
2.43.0


From fbfe5f8fd7839556995ccaf24d154f81432f3dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 26/50] fix: read the first of the graphs that pydot parses

---
 libs/dot/dotio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index 45a90a1..04b2764 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -54,7 +54,7 @@ def read(string):
     @return: Graph
     """
 
-    dotG = pydot.graph_from_dot_data(string)
+    dotG = pydot.graph_from_dot_data(string)[0]
 
     if (dotG.get_type() == "graph"):
         G = graph()
@@ -185,7 +185,7 @@ def read_hypergraph(string):
     @return: Hypergraph
     """
     hgr = hypergraph()
-    dotG = pydot.graph_from_dot_data(string)
+    dotG = pydot.graph_from_dot_data(string)[0]
 
     # Read the hypernode nodes...
     # Note 1: We need to assume that all of the nodes are listed since we need to know if they
-- 
2.43.0


From 301c027f6a49a6911c07124a6f31c91c563e0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 27/50] fix: discount the only valid candidate of an address
 wherever it is

---
 .../metadata/probabilistic_rules/counting_rules.py         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index e7d51df..d93e854 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -28,9 +28,10 @@ class CountingRule(Rule):
             len_inst = self.candidate_count(instructions)
             if len_inst == 1:
                 # Remove one of the available elements
-                if not instructions[0].ignore:
-                    for v in self._counting_field(instructions[0]):
-                        remaining[v] -= 1
+                for c in instructions:
+                    if not c.ignore:
+                        for v in self._counting_field(c):
+                            remaining[v] -= 1
             else:
                 # Count the candidates to obtain that element
                 for c in instructions:
-- 
2.43.0


From 8472d6c4ced62c7d0ea74ddd9513433534545ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 28/50] fix: score the distance of the registers beyond the
 storages too

---
 .../probabilistic_rules/distance_rule.py         | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index da06ebe..6903214 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -1,6 +1,6 @@
 import sys
+from collections import defaultdict
 
-from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.arm_instruction import ARMInstruction
 from semantic_codec.metadata.probabilistic_rules.rules import Rule
 
@@ -93,7 +93,7 @@ class RegisterReadDistance(RegisterDistanceRule):
             # Go backwards searching for registers writting to the registers we read_instructions from
             prev_pos = position - INST_SIZE * min_d # Position of the first previous instruction
             prev_pos_max = position - INST_SIZE * max_d # Position of the last previous instruction (going backwards)
-            register_score = [EPSILON] * AReg.STORAGE_COUNT
+            register_score = defaultdict(lambda: EPSILON)
 
             candidate_score = 0
 
@@ -108,26 +108,18 @@ class RegisterReadDistance(RegisterDistanceRule):
                         # Can't analyze undefined instructions
                         continue
 
-                    c_reg_score = [EPSILON] * AReg.STORAGE_COUNT
+                    c_reg_score = defaultdict(lambda: EPSILON)
                     prev_w = prev_c.storages_written()
                     # Find the score this previous candidate contributes to the candidate being evaluated
                     for w in prev_w:
                         if w in storages:
                             c_reg_score[w] += 1 / (len(prev_w) * self.candidate_count(prev_candidates))
-                    try:
                         register_score[w] = max(register_score[w], c_reg_score[w])
-                    except UnboundLocalError:
-                        print("What??")
-                    except IndexError:
-                        print("W:"+str(w))
 
                 # Find the score of the candidate so far
                 s = 0
                 for r in storages:
-                    try:
-                        s += register_score[r]
-                    except IndexError:
-                        print("R:"+str(r))
+                    s += register_score[r]
 
                 candidate_score = max(s / len(storages), candidate_score)
 
-- 
2.43.0


From 9eeb76d80b7474b6a873a4b3111cf2b50000d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 29/50] fix: rank the candidates by score when one of them is
 encoded as zero

---
 semantic_codec/solution/solution_quality.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index e043252..2659f4f 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -1,4 +1,3 @@
-import sys
 from math import log
 
 from semantic_codec.metadata.recuperator import probabilistic_rules
@@ -94,11 +93,8 @@ class SolutionQuality(object):
                 continue
             addr = self._original_program[k].address
             v = self._program[addr]
-            min_encoding = sys.maxsize
-            for inst in v:
-                if inst.encoding < min_encoding:
-                    min_encoding = inst.encoding
-            v.sort(key=lambda x: 0 if min_encoding == 0 else (x.score() * 1000000000 + min_encoding/ x.encoding), reverse=True)
+            # Highest score first, the lowest encoding among equals
+            v.sort(key=lambda x: (-x.score(), x.encoding))
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
-- 
2.43.0


From b5a7d98be84d055ffc5b1a6f30bf027ff5d26e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 30/50] fix: a branch ending a conditional run may not be
 executed by those jumping to it

---
 semantic_codec/static_analysis/cfg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index d2df3d8..ff3bfb1 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -156,7 +156,7 @@ class ARMControlFlowGraph(digraph):
     def _is_pointed_by_pending_jump(self, inst):
         pass
 
-    def _branch_instruction(self, cb, branch, inst, end):
+    def _branch_instruction(self, cb, branch, inst, end, conditional=None):
         """
         Creates a branch in the CFG due to a branching instruction
         :return: The node giving control to the next instruction, None if there is no such node
@@ -169,6 +169,7 @@ class ARMControlFlowGraph(digraph):
         # Create the node with the explicit branch
         if branch is None:
             branch = self._add_node(CFGBlock([inst]))
+            branch.conditional = conditional
         if cb is not None:
             r.add_edge((cb, branch))
             cb = None
@@ -272,7 +273,7 @@ class ARMControlFlowGraph(digraph):
                 # First case, just add the instruction to the current block
                 # unless the current instruction is a branch:
                 if inst.is_branch:
-                    cb = self._branch_instruction(cb, None, inst, end)
+                    cb = self._branch_instruction(cb, None, inst, end, last_cond_node)
                     last_cond_field = None
                 else:
                     cb.instructions.append(inst)
-- 
2.43.0


From 3167f56525802d873d1e01c907261ae457b0e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 31/50] fix: forget the predecessors found before the graph
 changed

---
 semantic_codec/static_analysis/dominators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index cb3e030..14daf45 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -7,6 +7,8 @@ def dominator_tree_dfs(graph, root):
     """
     for node in graph:
         node.reset_dominators()
+        # They may have been set when the graph had other edges
+        node.successors, node.predecessors = [], []
 
     result, visited, pending = [], set(), [(root, None)]
     while pending:
-- 
2.43.0


From 1d8724afe5c57b3ee50634dcf3985305599c8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 32/50] fix: a candidate using two exhausted storages was
 hidden twice

---
 semantic_codec/solution/solution_builders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index ff74720..9b389e9 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -61,6 +61,7 @@ class ExactFieldSumConstraint(Constraint):
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
                                     domain.hideValue(value)
+                                    break
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From 4205fa6d0b5dfb5caf663fe85a24068797ec22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 33/50] fix: predict no corruption when no packet is lost

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index ca56d5d..db40d2b 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -237,7 +237,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while min(b) < total_bits:
+    while b and min(b) < total_bits:
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From 65252aad142b6c7b0ce4c2fb1fc5aab0ece91e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 34/50] fix: store programs that do not fill a whole number of
 packets

---
 store_packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store_packets.py b/store_packets.py
index a9a7b76..7d5a70a 100644
--- a/store_packets.py
+++ b/store_packets.py
@@ -5,6 +5,7 @@ Program to store packets into a file
 import os
 import struct
 import sys
+from math import ceil, floor
 
 from bitarray import bitarray
 
@@ -42,7 +43,7 @@ if __name__ == '__main__':
     # Interleave the file using the SP algorithm
     bits_per_interlave = 2
     packet_size = 16
-    packet_count = len(original_program) * 4 / packet_size  # <- Total bytes in data divided by packet_size
+    packet_count = ceil(len(original_program) * 4 / packet_size)  # <- Total bytes in data divided by packet_size
 
     # Build the 2D interleave order
     m = build_2d_interleave_sp(packet_count, flat=True)
-- 
2.43.0


From 69eb33f998a95fdbac916978244bee8abaf68bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 35/50] fix: only the farthest address was searched for the
 write of a register

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 4040812..942b939 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -476,7 +476,7 @@ class ProbabilisticRecuperator(Recuperator):
                             count += 1
                 if t > 0:
                     p *= 1 - count / t
-                    if p == 1:
+                    if p == 0:
                         break
 
             prd = min(p, prd)
-- 
2.43.0


From b0895ea1e6740ccb71c924c37c0add9d9be7330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 36/50] fix: the score of matching pushes and pops was never
 used

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 942b939..af9f498 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -326,7 +326,7 @@ class ProbabilisticRecuperator(Recuperator):
         if p2 > 0:
             p2 = self._model.push_given_pop_at_fn_middle
 
-        inst.scores_by_rule['popu'] = max(p1, p2, p3)
+        inst.scores_by_rule['pupo'] = max(p1, p2, p3)
 
     def _compute_proper_cfg(self, inst, cpmd, addr):
         """
-- 
2.43.0


From ca188b3830fca2794d84ff9d9d72e186f5ef8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 37/50] fix: discarded neighbours lowered the scores of
 candidates

---
 semantic_codec/metadata/recuperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index af9f498..a20ff46 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -318,7 +318,7 @@ class ProbabilisticRecuperator(Recuperator):
         else:
             return None
 
-        p3 = 1 / len(self._program[addr])
+        p3 = 1 / sum(1 for i in self._program[addr] if not i.ignore)
         if reg_equals:
             p3 = self._model.push_given_pop_at_fn_end_equal_registers
         if p1 > 0:
@@ -404,7 +404,7 @@ class ProbabilisticRecuperator(Recuperator):
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
 
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
 
@@ -425,7 +425,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if after_same_cond > 0:
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
             elif after_same_cond > 0:
-- 
2.43.0


From ebd2ef3269b9332fc6272391214d73f8846a0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:25 +0000
Subject: [PATCH 38/50] fix: ZeroDivisionError when every candidate for the
 matching push or pop is discarded

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index a20ff46..fb6b55b 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -261,7 +261,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
-- 
2.43.0


From 9970d92bfddcea7a635f98afbe9cc852362eb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 39/50] fix: a pop was never matched with the registers its
 function pushes

---
 semantic_codec/metadata/recuperator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index fb6b55b..77cb609 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -250,13 +250,14 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
                     if not reg_equals_inst:
                         a = True
-                        pop_reg_read = i.registers_written()
+                        # A push reads the registers it saves, a pop writes those it restores
+                        pop_reg_read = i.registers_written() if i.is_a('pop') else i.registers_read()
                         for r in pop_reg_read:
-                            if not (r in push_reg_readed or r is AReg.PC):
+                            if not (r in push_reg_readed or r in (AReg.LR, AReg.SP, AReg.PC)):
                                 a = False
                                 break
                         for r in push_reg_readed:
-                            if not (r in pop_reg_read or r is AReg.LR or r is AReg.SP):
+                            if not (r in pop_reg_read or r in (AReg.LR, AReg.SP, AReg.PC)):
                                 a = False
                                 break
                         if a:
-- 
2.43.0


From 3c57bfddc4418fb7b5b96e55289440093f1918ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:55 +0000
Subject: [PATCH 40/50] fix: instructions setting the flags were never noticed
 before conditional ones

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 77cb609..86483da 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -367,7 +367,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if not i.ignore:
                     ln_prev += 1
                     a = i.conditional_field == inst.conditional_field
-                    b = AReg.CPSR in i.registers_written()
+                    b = i.modifies_flags()
                     if a:
                         same_cond += 1
                     if b:
-- 
2.43.0


From 942643266d1d82251dc06b2139234bb663c6b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 41/50] fix: the distance rule searched one instruction too
 near

---
 semantic_codec/metadata/probabilistic_rules/distance_rule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index 6903214..ccba4cb 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -91,8 +91,9 @@ class RegisterReadDistance(RegisterDistanceRule):
 
             # We are going backwards, so in fact prev_max is < than prev
             # Go backwards searching for registers writting to the registers we read_instructions from
-            prev_pos = position - INST_SIZE * min_d # Position of the first previous instruction
-            prev_pos_max = position - INST_SIZE * max_d # Position of the last previous instruction (going backwards)
+            # A distance of zero is the one to the adjacent instruction
+            prev_pos = position - INST_SIZE * (min_d + 1) # Position of the first previous instruction
+            prev_pos_max = position - INST_SIZE * (max_d + 1) # Position of the last previous instruction (going backwards)
             register_score = defaultdict(lambda: EPSILON)
 
             candidate_score = 0
-- 
2.43.0


From dbe2b61449d6a1d991ccc68436633b526b8d2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 42/50] fix: shift the rows of the Blaum interleaving
 cyclically, so near positions get different packets

---
 semantic_codec/interleaver/interleaver2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index 2cd1681..86cbb11 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -159,7 +159,8 @@ def build_2d_interleave_matrix_blaum(message_size, packet_size, data_width=-1, d
     m = round(message_size / packet_size)
     b = round(sqrt(2 * m - 1))
 
-    return [[int(abs(fmod(x - y * b, m))) for x in range(data_width)] for y in range(data_height)]
+    # The rows are shifted cyclically: the left of the first packet is the last one
+    return [[(x - y * b) % m for x in range(data_width)] for y in range(data_height)]
 
 
 def interleave(data, interleave_order, word_size=8):
-- 
2.43.0


From 51df450ab8b24506a962c5c42e713a57145d34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 43/50] fix: Loads of two registers and long multiplications
 write both of their first registers

---
 semantic_codec/architecture/capstone_instruction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 2541226..34124f1 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -4,7 +4,9 @@ from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MOD
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
     ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_INS_CMP, ARM_INS_CMN, ARM_INS_TST, ARM_INS_TEQ, \
     ARM_INS_LDM, ARM_INS_LDMDA, ARM_INS_LDMDB, ARM_INS_LDMIB, ARM_INS_STM, ARM_INS_STMDA, ARM_INS_STMDB, \
-    ARM_INS_STMIB, ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL
+    ARM_INS_STMIB, ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL, ARM_INS_UMAAL, ARM_INS_SMLALBB, \
+    ARM_INS_SMLALBT, ARM_INS_SMLALTB, ARM_INS_SMLALTT, ARM_INS_SMLALD, ARM_INS_SMLALDX, ARM_INS_SMLSLD, \
+    ARM_INS_SMLSLDX, ARM_INS_LDRD, ARM_INS_LDREXD
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -116,7 +118,9 @@ class CAPSInstruction(Instruction):
         if self.is_a('push') or self._cap.id in [ARM_INS_CMP, ARM_INS_CMN, ARM_INS_TST, ARM_INS_TEQ,
                                                  ARM_INS_B, ARM_INS_BX, ARM_INS_BL, ARM_INS_BLX]:
             return 0
-        if self._cap.id in [ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL]:
+        if self._cap.id in [ARM_INS_UMULL, ARM_INS_SMULL, ARM_INS_UMLAL, ARM_INS_SMLAL, ARM_INS_UMAAL,
+                            ARM_INS_SMLALBB, ARM_INS_SMLALBT, ARM_INS_SMLALTB, ARM_INS_SMLALTT, ARM_INS_SMLALD,
+                            ARM_INS_SMLALDX, ARM_INS_SMLSLD, ARM_INS_SMLSLDX, ARM_INS_LDRD, ARM_INS_LDREXD]:
             return 2
         return 1
 
-- 
2.43.0


From 66a4830d8d5579e323acdbe919597740f8a917e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 44/50] fix: changing the list of storages of an instruction
 does not change the instruction

---
 semantic_codec/architecture/instruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/architecture/instruction.py b/semantic_codec/architecture/instruction.py
index 4870905..d81006b 100644
--- a/semantic_codec/architecture/instruction.py
+++ b/semantic_codec/architecture/instruction.py
@@ -143,7 +143,7 @@ class Instruction(object):
         An storage is either a register or the system memory
         """
         if self._storages_used:
-            return self._storages_used
+            return list(self._storages_used)
         else:
             self._storages_used = []
             self._storages_used.extend(self.registers_used())
@@ -151,14 +151,14 @@ class Instruction(object):
                 self._storages_used.append(16)
             if not self._storages_used:
                 self._storages_used.append(18)  # The NOREG register. i.e. this instruction uses no register
-            return self._storages_used
+            return list(self._storages_used)
 
     def storages_written(self):
         """
         An storage is either a register or the system memory
         """
         if self._storages_written:
-            return self._storages_written
+            return list(self._storages_written)
         else:
             self._storages_written = []
             self._storages_written.extend(self.registers_written())
@@ -168,11 +168,11 @@ class Instruction(object):
             if 15 not in self._storages_written and self.is_branch:
                 # PC counter
                 self._storages_written.append(AReg.PC)
-            return self._storages_written
+            return list(self._storages_written)
 
     def storages_read(self):
         if self._storages_read:
-            return self._storages_read
+            return list(self._storages_read)
         else:
             self._storages_read = []
             self._storages_read.extend(self.registers_read())
@@ -180,7 +180,7 @@ class Instruction(object):
                 # 16 is the 'register' for memory
                 self._storages_read.append(AReg.STORE)
 
-            return self._storages_read
+            return list(self._storages_read)
 
     @property
     def is_undefined(self):
-- 
2.43.0


From 906eb062746c1d93f3831e661bb5f7105dbfd5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 45/50] fix: give the position when instructions are made from
 encodings

---
 semantic_codec/architecture/capstone_instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 34124f1..4b08a78 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -239,7 +239,7 @@ class CAPSInstruction(Instruction):
     def encodings_to_inst(encodings, return_undefined=False):
         result = []
         for e in encodings:
-            d = CAPSInstruction(e)
+            d = CAPSInstruction(e, 0)
             if not d.is_undefined or return_undefined:
                 result.append(d)
         return result
-- 
2.43.0


From dcca75edf89bba163ec629151d5d25a62b9fd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 46/50] fix: leave the quotes of names and values out of the
 graphs read from dot

---
 libs/dot/dotio.py | 48 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/libs/dot/dotio.py b/libs/dot/dotio.py
index 04b2764..1cdf002 100644
--- a/libs/dot/dotio.py
+++ b/libs/dot/dotio.py
@@ -42,6 +42,16 @@ colors = ['aquamarine4', 'blue4', 'brown4', 'cornflowerblue', 'cyan4',
           'maroon', 'palevioletred3', 'steelblue', 'violetred3']
 
 
+def _text(value):
+    """
+    Return the text that a name or value in Dot language stands for. Quotes are not part of it.
+    """
+    value = str(value)
+    if len(value) > 1 and value[0] == value[-1] == '"':
+        return value[1:-1]
+    return value
+
+
 def read(string):
     """
     Read a graph from a string in Dot language and return it. Nodes and edges specified in the
@@ -68,36 +78,36 @@ def read(string):
     # Read nodes...
     # Note: If the nodes aren't explicitly listed, they need to be
     for each_node in dotG.get_nodes():
-        G.add_node(each_node.get_name())
+        G.add_node(_text(each_node.get_name()))
         for each_attr_key, each_attr_val in each_node.get_attributes().items():
-            G.add_node_attribute(each_node.get_name(), (each_attr_key, each_attr_val))
+            G.add_node_attribute(_text(each_node.get_name()), (each_attr_key, _text(each_attr_val)))
 
     # Read edges...
     for each_edge in dotG.get_edges():
         # Check if the nodes have been added
-        if not G.has_node(each_edge.get_source()):
-            G.add_node(each_edge.get_source())
-        if not G.has_node(each_edge.get_destination()):
-            G.add_node(each_edge.get_destination())
+        if not G.has_node(_text(each_edge.get_source())):
+            G.add_node(_text(each_edge.get_source()))
+        if not G.has_node(_text(each_edge.get_destination())):
+            G.add_node(_text(each_edge.get_destination()))
 
         # See if there's a weight
         if 'weight' in each_edge.get_attributes().keys():
-            _wt = each_edge.get_attributes()['weight']
+            _wt = _text(each_edge.get_attributes()['weight'])
         else:
             _wt = 1
 
         # See if there is a label
         if 'label' in each_edge.get_attributes().keys():
-            _label = each_edge.get_attributes()['label']
+            _label = _text(each_edge.get_attributes()['label'])
         else:
             _label = ''
 
-        G.add_edge((each_edge.get_source(), each_edge.get_destination()), wt=_wt, label=_label)
+        G.add_edge((_text(each_edge.get_source()), _text(each_edge.get_destination())), wt=_wt, label=_label)
 
         for each_attr_key, each_attr_val in each_edge.get_attributes().items():
             if not each_attr_key in ['weight', 'label']:
-                G.add_edge_attribute((each_edge.get_source(), each_edge.get_destination()), \
-                                     (each_attr_key, each_attr_val))
+                G.add_edge_attribute((_text(each_edge.get_source()), _text(each_edge.get_destination())), \
+                                     (each_attr_key, _text(each_attr_val)))
 
     return G
 
@@ -193,18 +203,18 @@ def read_hypergraph(string):
     # Note 2: We should read_instructions in all of the nodes before putting in the links
     for each_node in dotG.get_nodes():
         if 'hypernode' == each_node.get('hyper_node_type'):
-            hgr.add_node(each_node.get_name())
+            hgr.add_node(_text(each_node.get_name()))
         elif 'hyperedge' == each_node.get('hyper_node_type'):
-            hgr.add_hyperedge(each_node.get_name())
+            hgr.add_hyperedge(_text(each_node.get_name()))
 
     # Now read_instructions in the links to connect the hyperedges
     for each_link in dotG.get_edges():
-        if hgr.has_node(each_link.get_source()):
-            link_hypernode = each_link.get_source()
-            link_hyperedge = each_link.get_destination()
-        elif hgr.has_node(each_link.get_destination()):
-            link_hypernode = each_link.get_destination()
-            link_hyperedge = each_link.get_source()
+        if hgr.has_node(_text(each_link.get_source())):
+            link_hypernode = _text(each_link.get_source())
+            link_hyperedge = _text(each_link.get_destination())
+        elif hgr.has_node(_text(each_link.get_destination())):
+            link_hypernode = _text(each_link.get_destination())
+            link_hyperedge = _text(each_link.get_source())
         hgr.link(link_hypernode, link_hyperedge)
 
     return hgr
-- 
2.43.0


From 4798990be525b7e2157ed77018e9245e328ab7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 47/50] fix: name the variables of programs with more than a
 thousand blocks in a row

---
 semantic_codec/static_analysis/ssa.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index d124b90..a7b1605 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -170,7 +170,16 @@ class SSAFormBuilder(object):
             counter[v] = 0
             stack[v] = [0]
 
-        self._rename_node(self._root, counter, stack)
+        # Walk the dominator tree without recursion, it may be as deep as there are blocks in the program
+        pending = [(self._root, False)]
+        while pending:
+            n, renamed = pending.pop()
+            if renamed:
+                self._forget_names(n, stack)
+            else:
+                self._rename_node(n, counter, stack)
+                pending.append((n, True))
+                pending.extend((s, False) for s in reversed(n.dom_successors))
 
     def _rename_node(self, n, counter, stack):
         """
@@ -199,11 +208,10 @@ class SSAFormBuilder(object):
                 var = phi[0]
                 val.append((var, stack[var][0]))
 
-        # Continue the renaming process in the successors
-        for s in n.dom_successors:
-            self._rename_node(s, counter, stack)
-
-        # Roll back the indexing: forget the names given in this node
+    def _forget_names(self, n, stack):
+        """
+        Roll back the indexing: forget the names given in this node
+        """
         for var, index in n.phi_functions:
             stack[var].pop(0)
         for inst in n.instructions:
-- 
2.43.0


From 31c2f87a75a456894293e325a092bc5b8d51efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 48/50] fix: corrupting more bits than a field has never ended

---
 semantic_codec/corruption/corruption.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index db40d2b..285785f 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -93,6 +93,8 @@ def corrupt_bits(hi, lo, amount, instruction):
     :param instruction: Instruction to corrupt
     :return: Returns the original instruction, as well as all the others resulting from the corruption
     """
+    # There cannot be more bits to corrupt than bits in the range
+    amount = min(amount, hi - lo + 1)
     # Generate random positions
     result, bits = [instruction], []
     while len(bits) < amount:
-- 
2.43.0


From 250820379e5ec270a70cc46f90a49b97a3e99920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 49/50] fix: a function without instructions hid the bounds of
 the function at address 0

---
 semantic_codec/metadata/probabilistic_rules/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/rules.py b/semantic_codec/metadata/probabilistic_rules/rules.py
index adbe6a9..2da477a 100644
--- a/semantic_codec/metadata/probabilistic_rules/rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/rules.py
@@ -29,7 +29,9 @@ def from_functions_to_list_and_addr(functions):
     fns = {}
 
     for f in functions:
-        fns[f.start_addr()] = (f.start_addr(), f.final_addr())
+        # A function without instructions (e.g. the symbol of some data) is at no address
+        if f.instructions:
+            fns[f.start_addr()] = (f.start_addr(), f.final_addr())
         for inst in f.instructions:
             result.append(inst)
 
-- 
2.43.0


From 3dcb904497efc34c37ef0d196a2f669d3cd236f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 50/50] fix: a discarded candidate with an earlier score of 1
 eliminated the others

---
 semantic_codec/metadata/recuperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 86483da..fd3f5c1 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -125,10 +125,10 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # may use it along with others
     hi = max(pc, po)
 
-    if hi == 1 and lo != 0:
-        score = 1
-    elif lo == 0 or inst.ignore:
+    if lo == 0 or inst.ignore:
         score = 0
+    elif hi == 1:
+        score = 1
     else:
         # The basic score all instructions must abide to
         score = pc * po * pcf
-- 
2.43.0

