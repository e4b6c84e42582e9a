From e3b5ee0cdb9303b11abe132a8b619ca8945f4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 01/41] fix: ExHiROM banks $80 and up map to the first half of
 the cartridge

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..7891440 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From c642b35ee7d9f2155b17f8da3508a02a28abf182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 02/41] fix: reject the one-past-the-end address when mapping
 into a ROM

---
 nsasm/rom.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 7891440..8e02151 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -9,6 +9,9 @@ namespace nsasm {
 ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   int bank_address = snes_address.BankAddress();
   int bank = snes_address.Bank();
+  if (bank > 0xff) {
+    return Error("Address out of range").SetLocation(snes_address);
+  }
   if (bank == 0x7e || bank == 0x7f) {
     return Error("Address in WRAM").SetLocation(snes_address);
   }
-- 
2.43.0


From 62215e8835bedfafa72f1d539cbc20fbd073d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 03/41] fix: RomOverwriter copied its data from a moved-from
 pointer

---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From 3a1b44f6cb9dde905781d61f3cca60503210e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 04/41] fix: RomOverwriter accepted a write one byte past the
 end of the image

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 8e02151..32985b0 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -178,7 +178,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From 7a1ba97562d279cd71911a026d23b597266e6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 05/41] fix: reads longer than a bank returned too few bytes

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 32985b0..a5ba3d0 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -50,7 +50,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (length <= 0x10000 && *last_address > *first_address) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From a58fbf93244940078da95488d20c7122548106eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 06/41] fix: close the ROM file when reading or writing it
 fails

---
 nsasm/rom.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index a5ba3d0..14dc0e0 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -120,6 +120,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     header.resize(0x200);
     int bytes_read = fread(&header[0], 1, 0x200, f);
     if (bytes_read != 0x200) {
+      fclose(f);
       return Error("Failed to read file").SetLocation(path);
     }
     file_size -= 0x200;
@@ -196,11 +197,13 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
   if (!rom_->header_.empty()) {
     size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
     if (written != 0x200) {
+      fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
   size_t written = fwrite(&data_[0], 1, data_.size(), f);
   if (written != data_.size()) {
+    fclose(f);
     return Error("Failed to write payload").SetLocation(path);
   }
   if (fclose(f) != 0) {
-- 
2.43.0


From 7486c51e42744849f905ac299d0dedce1f3d84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 07/41] fix: the .REMOTE directive had no name

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From d5b748d73caa64e4299603dd0136bba251e17cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 08/41] fix: quick_dump aborted instead of reporting a failed
 read

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From 22a964cf054a88bb232117f5220f2c9aea045612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 09/41] fix: quick_dump accepted empty and out-of-range numeric
 arguments

---
 util/quick_dump.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..9d35ee8 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -28,19 +28,19 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  if (sscanf(argv[2], "%x", &start) != 1 || start > 0xffffff) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From 7d3729ec2a821a32c7b92feb5db026d0c682a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 10/41] fix: report numeric literals that do not fit instead of
 truncating them

---
 nsasm/token.cc | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/nsasm/token.cc b/nsasm/token.cc
index 471a377..352e641 100644
--- a/nsasm/token.cc
+++ b/nsasm/token.cc
@@ -1,5 +1,8 @@
 #include "nsasm/token.h"
 
+#include <cstdlib>
+#include <limits>
+
 #include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
@@ -26,6 +29,19 @@ bool IsIdentifierChar(char ch) {
   return IsDecimalDigit(ch) || IsIdentifierFirstChar(ch);
 }
 
+// Returns the value of a sequence of digits, or an error if it is too large to
+// be represented.  Hexadecimal and binary literals name machine values, which
+// are at most 24 bits wide.
+ErrorOr<int> ParseDigits(const std::string& digits, int base, Location loc) {
+  long long value = strtoll(digits.c_str(), nullptr, base);
+  const long long max_value =
+      (base == 10) ? std::numeric_limits<int>::max() : 0xffffff;
+  if (value > max_value) {
+    return Error("Numeric literal '%s' is too large", digits).SetLocation(loc);
+  }
+  return static_cast<int>(value);
+}
+
 }  // namespace
 
 std::string Token::ToString() const {
@@ -135,7 +151,8 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         hex_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(hex_digits.c_str(), nullptr, 16);
+      auto value = ParseDigits(hex_digits, 16, loc);
+      NSASM_RETURN_IF_ERROR(value);
       // For hex constants, deduce the type from the number of characters.
       // ("$00" is a byte and "$0000" is a word, for example.)
       NumericType type = T_long;
@@ -144,7 +161,7 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
       } else if (hex_digits.size() <= 4) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -156,14 +173,15 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         binary_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(binary_digits.c_str(), nullptr, 2);
+      auto value = ParseDigits(binary_digits, 2, loc);
+      NSASM_RETURN_IF_ERROR(value);
       NumericType type = T_long;
       if (binary_digits.size() <= 8) {
         type = T_byte;
       } else if (binary_digits.size() <= 16) {
         type = T_word;
       }
-      result.emplace_back(value, loc, type);
+      result.emplace_back(*value, loc, type);
       continue;
     }
 
@@ -174,8 +192,9 @@ ErrorOr<std::vector<Token>> Tokenize(std::string_view sv, Location loc) {
         decimal_digits.push_back(sv[0]);
         sv.remove_prefix(1);
       }
-      int value = strtol(decimal_digits.c_str(), nullptr, 10);
-      result.emplace_back(value, loc);
+      auto value = ParseDigits(decimal_digits, 10, loc);
+      NSASM_RETURN_IF_ERROR(value);
+      result.emplace_back(*value, loc);
       continue;
     }
 
-- 
2.43.0


From 690e28a6a290fccff421c9edb0c9478bcc6ab0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 11/41] fix: dividing the most negative number by -1 crashed
 the assembler

---
 nsasm/expression.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..b64450d 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -40,7 +40,8 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
-    return a / b;
+    // Divide in a wider type: INT_MIN / -1 does not fit in an int, and traps.
+    return static_cast<int>(static_cast<long long>(a) / b);
   };
   return BinaryOp(op, '/');
 }
-- 
2.43.0


From 9ed65988fadd595e3532331822b48bf7155e91d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 12/41] fix: statements after an empty statement were silently
 dropped

---
 nsasm/parse.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index c2431f6..fcd7ece 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -544,9 +544,14 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
       }
     }
 
-    if (AtEnd(&tokens)) {
+    if (tokens.front().EndOfLine()) {
       return result_vector;
     }
+    if (tokens.front() == ':') {
+      // An empty statement; more may follow it on this line.
+      tokens.remove_prefix(1);
+      continue;
+    }
 
     // pseudo scope operators
     if (tokens.front() == '{' || tokens.front() == '}') {
-- 
2.43.0


From a6d21c073789bb0034a3146277e8cb9e92957656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 13/41] fix: values that are not addresses aborted the
 assembler

---
 nsasm/address.h      |  5 +++++
 nsasm/instruction.cc |  9 ++++++++-
 nsasm/module.cc      | 13 +++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/nsasm/address.h b/nsasm/address.h
index 90a2a3b..cb57b69 100644
--- a/nsasm/address.h
+++ b/nsasm/address.h
@@ -24,6 +24,11 @@ class Address {
   explicit Address(uint8_t bank, uint16_t bank_address)
       : value_((bank << 16) | bank_address) {}
 
+  // Returns true iff the given value is an address in the 24-bit address space.
+  static constexpr bool IsValid(int value) {
+    return value >= 0 && value <= 0xffffff;
+  }
+
   constexpr int Bank() const { return value_ >> 16; }
   constexpr uint16_t BankAddress() const { return value_ & 0xffffu; }
 
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..06e17c9 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -481,6 +481,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (!Address::IsValid(*val1)) {
+      return Error("Branch target is not a valid address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(2);
     auto offset = target.SubtractWrapped(branch_base);
@@ -495,6 +498,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (!Address::IsValid(*val1)) {
+      return Error("Branch target is not a valid address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(3);
     auto offset = target.SubtractWrapped(branch_base);
@@ -512,7 +518,8 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      // Only the low 24 bits are encoded.
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..cb655f0 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -257,6 +257,11 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
+      if (!Address::IsValid(*v)) {
+        return Error("Argument to %s is not a valid address",
+                     nsasm::ToString(dir->name))
+            .SetLocation(dir->location);
+      }
       pc = nsasm::Address(*v);
     }
     int statement_size = line.statement.SerializedSize();
@@ -358,6 +363,11 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
+      if (!Address::IsValid(*arg_val)) {
+        return Error("Argument to %s is not a valid address",
+                     nsasm::ToString(directive->name))
+            .SetLocation(directive->location);
+      }
       Address address(*arg_val);
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
@@ -391,6 +401,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
+    if (!Address::IsValid(line.value->ToInt())) {
+      continue;  // A .equ value need not be an address.
+    }
     nsasm::Address address = line.value->ToAddress();
     if (!address_to_global_.contains(address)) {
       address_to_global_[address] = node.first;
-- 
2.43.0


From 8d31ac2ca867a073b3040d4519ae24d58ac79842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 14/41] fix: pulling a register of unknown width aborted the
 assembler

---
 nsasm/execution_state.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..c71a7d4 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -294,6 +294,12 @@ struct StackValue {
     assert(type_ == T_byte);
     return value_;
   }
+  // Returns true iff this is a variable-size entry holding the register's
+  // original value.
+  bool HoldsOriginal() const {
+    assert(IsVarSize());
+    return value_ == 1;
+  }
   StatusFlags flags() const {
     assert(type_ == T_flags);
     return flags_;
@@ -391,7 +397,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
@@ -430,7 +437,7 @@ class Stack {
     } else if (bit == B_original) {
       StackValue result = PullVarsize();
       if (result.type() == var_byte_type) {
-        if (result.value() == 1) {
+        if (result.HoldsOriginal()) {
           // holds original value
           return RegisterValue(RegisterValue::T_original);
         } else {
-- 
2.43.0


From f2435f1b486e82fe01b19b9fe42c5b4b794b984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 15/41] fix: a 16-bit value pulled from the tracked stack had
 its bytes swapped

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index c71a7d4..bfd1a6a 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -466,7 +466,7 @@ class Stack {
         return RegisterValue(RegisterValue::T_original);
       } else if (lo_byte.type() == StackValue::T_byte &&
                  hi_byte.type() == StackValue::T_byte) {
-        return RegisterValue((lo_byte.value() << 8) + hi_byte.value());
+        return RegisterValue((hi_byte.value() << 8) + lo_byte.value());
       } else {
         return RegisterValue();
       }
-- 
2.43.0


From ee57b6a3bee62ccb4e1515c0557a65c3d9dfaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 16/41] fix: XCE carried the original-value mark over to the
 other bit

---
 nsasm/execution_state.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bfd1a6a..eace99e 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -97,9 +97,12 @@ class StatusFlags {
     // "I'd use std::swap here, but c_bit_ and e_bit_ are bitfield members,
     // and thus can't be passed to functions by reference."
     // "Sir, this is an Arby's."
+    //
+    // B_original refers to the initial value of the same bit, so it does not
+    // survive being moved to the other one.
     uint8_t old_c_bit = c_bit_;
-    c_bit_ = e_bit_;
-    e_bit_ = old_c_bit;
+    c_bit_ = (e_bit_ == B_original) ? uint8_t(B_unknown) : e_bit_;
+    e_bit_ = (old_c_bit == B_original) ? uint8_t(B_unknown) : old_c_bit;
     m_bit_ = ConstrainedForEBit(MBit(), EBit());
     x_bit_ = ConstrainedForEBit(XBit(), EBit());
   }
-- 
2.43.0


From 551a680654fdb4c9cd305bc12ee74d0dfe7891fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 17/41] fix: stack analysis ignored instructions that push,
 pull or move the stack

---
 nsasm/instruction.cc | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 06e17c9..1c9703c 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -356,6 +356,40 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Pushes and pulls of registers whose value is not tracked.
+  if (m == M_phb) {
+    es->GetStack().PushDBR(es->DataBankRegister());
+    return {};
+  }
+
+  if (m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_plb) {
+    es->GetStack().PullByte();
+    es->DataBankRegister() = RegisterValue();
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
+  // Instructions that move the stack pointer.
+  if (m == M_txs || m == M_tcs) {
+    es->GetStack().Abandon();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From 492d216a132979aa82f1f8070d0c5e238982513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 18/41] fix: merge the states of all paths that reach a line

---
 nsasm/module.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index cb655f0..271dbb4 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -196,16 +196,20 @@ ErrorOr<void> Module::RunFirstPass() {
 
   while (!decode_stack.empty()) {
     // Consider the earliest statement that needs processing.
-    auto& node = *decode_stack.begin();
-    if (node.first == lines_.size()) {
+    const size_t line_index = decode_stack.begin()->first;
+    ExecutionState current_state = decode_stack.begin()->second;
+    decode_stack.erase(decode_stack.begin());
+    if (line_index == lines_.size()) {
       return Error("Execution continues past end of file");
     }
-    Line& line = lines_[node.first];
-    const ExecutionState& current_state = node.second;
-    if (line.reached && line.incoming_state == current_state) {
-      // we've been here before under these conditions; nothing more to do
-      decode_stack.erase(decode_stack.begin());
-      continue;
+    Line& line = lines_[line_index];
+    if (line.reached) {
+      // Combine this with the states this line was reached under before.
+      current_state |= line.incoming_state;
+      if (line.incoming_state == current_state) {
+        // we've been here before under these conditions; nothing more to do
+        continue;
+      }
     }
 
     line.reached = true;
@@ -215,7 +219,7 @@ ErrorOr<void> Module::RunFirstPass() {
     NSASM_RETURN_IF_ERROR_WITH_LOCATION(line.statement.Execute(&next_state),
                                         line.statement.Location());
     if (!line.statement.IsExitInstruction()) {
-      add_to_decode_stack(node.first + 1, next_state);
+      add_to_decode_stack(line_index + 1, next_state);
     }
     if (line.statement.IsLocalBranch()) {
       const Instruction& ins = *line.statement.Instruction();
-- 
2.43.0


From 53c329ac5b90ce3e05a53a3d4217255a3e8619db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 19/41] fix: stack analysis ignored stack-relative stores

---
 nsasm/execution_state.h | 16 ++++++++++++++++
 nsasm/instruction.cc    | 12 ++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index eace99e..b7248d1 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -397,6 +397,22 @@ class Stack {
     return result;
   }
 
+  // Forget the contents of `size` bytes, `offset` bytes into the stack.  As in
+  // stack-relative addressing, the byte that would be pulled next has offset 1.
+  void Overwrite(int offset, int size) {
+    int stack_size = stack_.size();
+    for (int i = 1; i < offset + size && i <= stack_size; ++i) {
+      StackValue& value = stack_[stack_size - i];
+      if (value.IsVarSize()) {
+        Abandon();
+        return;
+      }
+      if (i >= offset) {
+        value = StackValue();
+      }
+    }
+  }
+
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 1c9703c..580ee66 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -390,6 +390,18 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Stack-relative stores change values that may be pulled later.
+  if (m == M_sta && addressing_mode == A_stk) {
+    auto arg = maybe_arg1();
+    if (!arg.has_value()) {
+      es->GetStack().Abandon();
+    } else {
+      es->GetStack().Overwrite(*arg & 0xff,
+                               es->Flags().MBit() == B_on ? 1 : 2);
+    }
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From 726d8064b13383db9999823f8fc40cbcf424a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 20/41] fix: branches to .EQU names were analyzed as branches
 to the .EQU line

---
 nsasm/module.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 271dbb4..352c97b 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -233,6 +233,11 @@ ErrorOr<void> Module::RunFirstPass() {
                      nsasm::ToString(ins.mnemonic), *target)
             .SetLocation(ins.location);
       }
+      if (lines_[*target_index].statement == D_equ) {
+        return Error("Target for `%s %s` does not label a line of code",
+                     nsasm::ToString(ins.mnemonic), *target)
+            .SetLocation(ins.location);
+      }
       next_state = current_state;
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(ins.ExecuteBranch(&next_state),
                                           line.statement.Location());
-- 
2.43.0


From 36a4120b1aa6e0521d577e9c2f236511c00c603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 21/41] fix: the name of an address with several labels
 depended on hash order

---
 nsasm/module.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 352c97b..c39498c 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -404,7 +404,11 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       }
     }
   }
-  for (const auto& node : global_to_line_) {
+  // Visit labels in name order, so that the name chosen for an address with
+  // several labels does not depend on hash order.
+  const std::map<std::string, int> sorted_globals(global_to_line_.begin(),
+                                                  global_to_line_.end());
+  for (const auto& node : sorted_globals) {
     const Line& line = lines_[node.second];
     if (!line.value.has_value()) {
       return Error("Label missing a value")
-- 
2.43.0


From f9b52e6eb6d4232b7c33e01c8cfeb2a9f5419890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 22/41] fix: duplicate definitions were reported at the wrong
 line

---
 nsasm/module.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index c39498c..58ec5de 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -333,8 +333,7 @@ const std::map<FullIdentifier, Location> Module::ExportedNames() const {
   std::map<FullIdentifier, Location> result;
   for (const auto& node : global_to_line_) {
     FullIdentifier id(module_name_, node.first);
-    Location loc(path_, node.second);
-    result[std::move(id)] = std::move(loc);
+    result[std::move(id)] = lines_[node.second].statement.Location();
   }
   return result;
 }
-- 
2.43.0


From 297c23c6b910a5ee0ef56dbb6bde7e914690a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 23/41] fix: instructions at the end of readable memory could
 not be disassembled

---
 nsasm/disassemble.cc | 17 +++++++++++++++--
 nsasm/disassemble.h  |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 51e3d2f..cba2251 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -96,7 +96,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     if (!existing_instruction) {
       // This is the first time we've seen this address.  Try to disassemble
       // it.
-      auto instruction_data = src_->Read(pc, 4);
+      auto instruction_data = ReadInstruction(pc);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(instruction_data, src_->Path(), pc);
       auto instruction =
           Decode(*instruction_data, current_execution_state.Flags());
@@ -160,7 +160,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // Check that the instruction still decodes with the new flag state.
         // (We can throw the answer away if so, since we've already disassembled
         // this instruction before.)
-        auto instruction_data = src_->Read(pc, 4);
+        auto instruction_data = ReadInstruction(pc);
         NSASM_RETURN_IF_ERROR_WITH_LOCATION(
             Decode(*instruction_data, combined_execution_state.Flags()),
             src_->Path(), pc);
@@ -312,6 +312,19 @@ ErrorOr<void> Disassembler::Cleanup() {
   return {};
 }
 
+ErrorOr<std::vector<uint8_t>> Disassembler::ReadInstruction(
+    nsasm::Address pc) const {
+  // An instruction can be shorter than four bytes, and end where the readable
+  // data does.
+  for (int length = 4; length > 1; --length) {
+    auto data = src_->Read(pc, length);
+    if (data.ok()) {
+      return data;
+    }
+  }
+  return src_->Read(pc, 1);
+}
+
 absl::optional<std::string> Disassembler::NameForAddress(
     nsasm::Address address) {
   if (entry_points_.count(address) == 0) {
diff --git a/nsasm/disassemble.h b/nsasm/disassemble.h
index efcaa8b..8b6803f 100644
--- a/nsasm/disassemble.h
+++ b/nsasm/disassemble.h
@@ -55,6 +55,9 @@ class Disassembler {
   }
 
  private:
+  // Read up to four bytes from `pc`, or as many as there are.
+  ErrorOr<std::vector<uint8_t>> ReadInstruction(nsasm::Address pc) const;
+
   absl::optional<std::string> NameForAddress(nsasm::Address address);
 
   std::string GenSym() { return absl::StrCat("gensym", ++current_sym_); }
-- 
2.43.0


From a10f753089fe684b28820dca17b3c803e5c831fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 24/41] fix: call targets were reported with the flags after
 the call returns

---
 nsasm/disassemble.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index cba2251..04960e8 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -183,7 +183,11 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // ... the far branch target ...
         auto far_branch_address = di.instruction.FarBranchTarget(pc);
         if (far_branch_address.has_value()) {
-          add_far_branch(*far_branch_address, next_execution_state);
+          // The target is entered with the flags as they are before the
+          // instruction's return convention is applied.
+          auto target_execution_state = combined_execution_state;
+          target_execution_state.Flags().SetCBit(B_unknown);
+          add_far_branch(*far_branch_address, target_execution_state);
         }
         // ... and the local branch target.
         if (di.instruction.IsLocalBranch()) {
-- 
2.43.0


From 7c7a8306bb92e90b569ba2b9cf624d85549f2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 25/41] fix: CLC and SEC were merged with an ADC or SBC that
 does not follow them

---
 nsasm/disassemble.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 04960e8..7426778 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -283,7 +283,7 @@ ErrorOr<void> Disassembler::Cleanup() {
   }
 
   // Pseudo-op folding.  Merge CLC/ADC and CLC/SBC into ADD and SUB,
-  // respectively.
+  // respectively, when the second directly follows the first in memory.
   auto iter = disassembly_.begin();
   while (iter != disassembly_.end()) {
     auto next_iter = std::next(iter);
@@ -292,6 +292,7 @@ ErrorOr<void> Disassembler::Cleanup() {
     }
     if (iter->second.instruction.mnemonic == M_clc &&
         next_iter->second.instruction.mnemonic == M_adc &&
+        next_iter->first == iter->first.AddWrapped(1) &&
         next_iter->second.label.empty()) {
       iter->second.instruction = std::move(next_iter->second.instruction);
       iter->second.instruction.mnemonic = PM_add;
@@ -302,6 +303,7 @@ ErrorOr<void> Disassembler::Cleanup() {
     }
     if (iter->second.instruction.mnemonic == M_sec &&
         next_iter->second.instruction.mnemonic == M_sbc &&
+        next_iter->first == iter->first.AddWrapped(1) &&
         next_iter->second.label.empty()) {
       iter->second.instruction = std::move(next_iter->second.instruction);
       iter->second.instruction.mnemonic = PM_sub;
-- 
2.43.0


From 739ecc02a3e72763298acd00030dd791af9ae7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 26/41] fix: instructions kept a width suffix when another
 entry point made the width unknown

---
 nsasm/disassemble.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 7426778..e2c464c 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -205,11 +205,13 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
 
   // If we got here, disassembly was a success.
 
-  // Add a suffix to each new disassembly instruction that supports one.
+  // Add a suffix to each new disassembly instruction that supports one.  (An
+  // instruction seen before loses its suffix if the flag is no longer known.)
   for (auto& node : new_disassembly) {
     Instruction& ins = node.second.instruction;
     const StatusFlags& flags = node.second.current_execution_state.Flags();
     StatusFlagUsed flag_used = FlagControllingInstructionSize(ins.mnemonic);
+    ins.suffix = S_none;
     if (flag_used == kUsesMFlag) {
       if (flags.MBit() == B_on) {
         ins.suffix = S_b;
-- 
2.43.0


From 7efd4ab55a26f97633517f86e4be7b1d5778b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 27/41] fix: an address that failed to disassemble stayed
 marked as an entry point

---
 nsasm/disassemble.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index e2c464c..2938d11 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -80,8 +80,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
-  // ensure entry point is marked, and has a label
-  entry_points_.insert(starting_address);
+  // ensure entry point has a label
   get_label(starting_address);
 
   while (!decode_stack.empty()) {
@@ -203,7 +202,8 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     }
   }
 
-  // If we got here, disassembly was a success.
+  // If we got here, disassembly was a success.  Mark the entry point.
+  entry_points_.insert(starting_address);
 
   // Add a suffix to each new disassembly instruction that supports one.  (An
   // instruction seen before loses its suffix if the flag is no longer known.)
-- 
2.43.0


From c39caa687db31b889d164afd73660366c5935d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 28/41] fix: disassemble_more used the ROM after giving it away

---
 util/disassemble_more.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1346a4f..670f729 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -58,6 +58,12 @@ int main(int argc, char** argv) {
   std::map<nsasm::Address, nsasm::ReturnConvention> return_conventions =
       assembler->JumpTargetReturnConventions();
 
+  // The identity test above owns the ROM it was given, so load another.
+  rom = nsasm::LoadRomFile(argv[1]);
+  if (!rom.ok()) {
+    absl::PrintF("Error loading ROM: %s\n", rom.error().ToString());
+    return 1;
+  }
   nsasm::Disassembler disassembler(*std::move(rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
-- 
2.43.0


From 8ae39dbe008c6b1a8a54f83c205fc0f5c8caf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 29/41] fix: quick_assemble reported success when it could not
 write its output

---
 util/quick_assemble.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index 35edc55..d350f7c 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -67,6 +67,7 @@ int main(int argc, char** argv) {
     auto write_status = overwriter.CreateFile(output_path);
     if (!write_status.ok()) {
       absl::PrintF("Error writing file: %s\n", write_status.error().ToString());
+      return 1;
     }
   }
   // assembler.DebugPrint();
-- 
2.43.0


From 2d166a0818eea151b7f2a0c9fd65b7aea831b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 30/41] fix: the disassembly tools accepted empty and
 out-of-range addresses

---
 util/dumb_disassemble.cc  | 4 ++--
 util/quick_disassemble.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ab0ac17..4a2c8c3 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -28,8 +28,8 @@ int main(int argc, char** argv) {
   }
 
   unsigned hex_address;
-  if (!sscanf(argv[2], "%x", &hex_address)) {
-    usage(argv[2]);
+  if (sscanf(argv[2], "%x", &hex_address) != 1 || hex_address > 0xffffff) {
+    usage(argv[0]);
     return 1;
   }
 
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 09a3fc4..10268b2 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -55,7 +55,7 @@ int main(int argc, char** argv) {
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (!sscanf(address, "%x", &rd_address)) {
+    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffff) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From c25620a0b272405a492cc901ec855941db320522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 31/41] fix: the disassembly tools printed .entry flags the
 assembler cannot read

---
 util/disassemble_more.cc  | 2 +-
 util/quick_disassemble.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 670f729..ced2264 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -111,7 +111,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 10268b2..c2a35f6 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -112,7 +112,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
-- 
2.43.0


From 84057f056284a2aa99f55fe4127e4db148baeb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 32/41] fix: .REMOTE was printed without its return convention

---
 nsasm/directive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 3a85fdc..7774475 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -48,7 +48,8 @@ std::string Directive::ToString() const {
                         }));
     case DT_remote_arg:
       return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
-                          flag_state_argument.ToName());
+                          flag_state_argument.ToName(),
+                          return_convention_argument.ToSuffixString());
   }
   return "???";
 }
-- 
2.43.0


From cb56ebecdd58cd9e6b272895e5dc8c3ef14a3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 33/41] fix: a return convention with a known carry was printed
 in a form that cannot be read back

---
 nsasm/calling_convention.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/calling_convention.cc b/nsasm/calling_convention.cc
index 62ce23b..6145521 100644
--- a/nsasm/calling_convention.cc
+++ b/nsasm/calling_convention.cc
@@ -11,7 +11,7 @@ std::string ReturnConvention::ToSuffixString() const {
       return "";  // default
     case 1:
       return absl::StrFormat(" yields %s",
-                             absl::get<StatusFlags>(state_).ToString());
+                             absl::get<StatusFlags>(state_).ToName());
     case 2:
       return " noreturn";
   }
-- 
2.43.0


From 95f5ad2b1f404d2e190794671a8a262cba404e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 34/41] fix: an unsupported return convention was reported
 without its line

---
 nsasm/parse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index fcd7ece..45ca417 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -424,8 +424,9 @@ ErrorOr<Instruction> ParseInstruction(TokenSpan* pos) {
   if (!return_convention->IsDefault() && result->mnemonic != M_jsl &&
       result->mnemonic != M_jsr) {
     return nsasm::Error(
-        "return calling convention not supported on instruction %s",
-        nsasm::ToString(result->mnemonic));
+               "return calling convention not supported on instruction %s",
+               nsasm::ToString(result->mnemonic))
+        .SetLocation(Loc(pos));
   }
   result->return_convention = *return_convention;
   return result;
-- 
2.43.0


From 04a7c6a35dbdc7f62cd2be9e372ce8c04036f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 35/41] fix: a read past the end of a ROM was reported at a
 line instead of an address

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 14dc0e0..5608e5a 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -55,7 +55,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
     // case.
     if (*last_address >= data_.size()) {
       return Error("Address past end of ROM")
-          .SetLocation(path_, *first_address);
+          .SetLocation(path_, address);
     }
     return std::vector<uint8_t>(data_.begin() + *first_address,
                                 data_.begin() + *last_address + 1);
-- 
2.43.0


From aca0a3f52247ea0914ac3b7cc90261eb54451593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 36/41] fix: a name without a definition in .EQU was reported
 as a cyclic dependency

---
 nsasm/assembler.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nsasm/assembler.cc b/nsasm/assembler.cc
index f769bc3..092fdef 100644
--- a/nsasm/assembler.cc
+++ b/nsasm/assembler.cc
@@ -22,6 +22,15 @@ nsasm::ErrorOr<std::vector<Module*>> Assembler::FindAssemblyOrder() {
   absl::flat_hash_set<Module*> already_inserted;
   absl::flat_hash_map<FullIdentifier, Location> exported_names;
 
+  // A name that no module defines is not worth waiting for.  Evaluating the
+  // reference to it will report the error, with its location.
+  absl::flat_hash_set<FullIdentifier> defined_names;
+  for (const auto& module : modules_) {
+    for (const auto& node : module.ExportedNames()) {
+      defined_names.insert(node.first);
+    }
+  }
+
   while (order.size() < modules_.size()) {
     bool more_found = false;
     for (auto& module : modules_) {
@@ -30,7 +39,8 @@ nsasm::ErrorOr<std::vector<Module*>> Assembler::FindAssemblyOrder() {
       }
       bool all_dependencies_met = true;
       for (const FullIdentifier& dependency : module.Dependencies()) {
-        if (!exported_names.contains(dependency)) {
+        if (defined_names.contains(dependency) &&
+            !exported_names.contains(dependency)) {
           all_dependencies_met = false;
           break;
         }
-- 
2.43.0


From 1d712b4ac26d90425b85747b711c412fa45e236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 37/41] fix: quick_disassemble ignored a second mode for an
 address and an address without a mode

---
 util/quick_disassemble.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index c2a35f6..ec13d21 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -44,6 +44,12 @@ int main(int argc, char** argv) {
     return 1;
   }
 
+  if (argc % 2 != 0) {
+    // Some address was given without a mode.
+    usage(argv[0]);
+    return 1;
+  }
+
   std::map<nsasm::Address, nsasm::StatusFlags> seeds;
   for (int idx = 2; idx < argc - 1; idx += 2) {
     auto parsed_flag = nsasm::StatusFlags::FromName(argv[idx + 1]);
@@ -67,7 +73,7 @@ int main(int argc, char** argv) {
       }
       rd_address = *indirect_address;
     }
-    seeds.emplace(nsasm::Address(rd_address), *parsed_flag);
+    CombineStates(&seeds, {{nsasm::Address(rd_address), *parsed_flag}});
   }
 
   nsasm::Disassembler disassembler(std::move(*rom));
-- 
2.43.0


From 8ddd02b6eaeab03ca038ec86f135e959ea6fe2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 38/41] fix: dumb_disassemble could not read instructions at
 the end of the ROM

---
 util/dumb_disassemble.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 4a2c8c3..fa23987 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -43,7 +43,11 @@ int main(int argc, char** argv) {
   nsasm::ExecutionState execution_state(*parsed_flag);
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
   while (true) {
+    // An instruction can be shorter than four bytes, and end where the ROM does.
     auto instruction_data = (*rom)->Read(address, 4);
+    for (int length = 3; length > 0 && !instruction_data.ok(); --length) {
+      instruction_data = (*rom)->Read(address, length);
+    }
     if (!instruction_data.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
                    instruction_data.error().ToString());
-- 
2.43.0


From b49985e6192b39267cb238299ed4d6be80dade4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 39/41] fix: dumb_disassemble showed the flags of a branch not
 taken at its target

---
 util/dumb_disassemble.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index fa23987..2ced9ee 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -63,6 +63,7 @@ int main(int argc, char** argv) {
     int instruction_bytes =
         nsasm::InstructionLength(instruction->addressing_mode);
     nsasm::Address next_pc = address.AddWrapped(instruction_bytes);
+    nsasm::ExecutionState branch_execution_state = execution_state;
     auto status = instruction->Execute(&execution_state);
     if (!status.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
@@ -71,6 +72,12 @@ int main(int argc, char** argv) {
     }
     std::string local_branch_target;
     if (instruction->IsLocalBranch()) {
+      status = instruction->ExecuteBranch(&branch_execution_state);
+      if (!status.ok()) {
+        absl::PrintF("%s - ERROR: %s\n", address.ToString(),
+                     status.error().ToString());
+        return 1;
+      }
       nsasm::Address target = next_pc.AddWrapped(
           *instruction->arg1.Evaluate(nsasm::NullLookupContext()));
       auto prev_value = local_jumps.find(target);
@@ -81,7 +88,7 @@ int main(int argc, char** argv) {
         local_branch_target +=
             absl::StrFormat(" (was %s)", prev_value->second.Flags().ToString());
       }
-      local_jumps[target] = execution_state;
+      local_jumps[target] = branch_execution_state;
     }
     std::string instruction_string = instruction->ToString();
     absl::PrintF("%s - %30s ; %s%s\n", address.ToString(), instruction_string,
-- 
2.43.0


From 4fb13ee82a8255e0e3830f0ec9e6e5862dd2265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 40/41] fix: an operand with an unclosed parenthesis lost what
 was before its last part

---
 nsasm/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index 45ca417..bcb018d 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -367,10 +367,10 @@ ErrorOr<Instruction> ParseInstructionCore(TokenSpan* pos) {
         return CreateInstruction(mnemonic, suffix, SA_ind_y, Loc(pos),
                                  std::move(*arg1));
       }
-      // We have to abandon this attempt and go back to parsing this as an
-      // expression.
-      *pos = backup_pos;
     }
+    // We have to abandon this attempt and go back to parsing this as an
+    // expression.
+    *pos = backup_pos;
   }
 
   // We've tried everything else; now try a bare expression.
-- 
2.43.0


From 4e828a82f45d80542789c93b1e26d9801b87f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 41/41] fix: the name of an address that several modules name
 does not depend on the order of files

---
 nsasm/assembler.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nsasm/assembler.cc b/nsasm/assembler.cc
index 092fdef..1eb84a1 100644
--- a/nsasm/assembler.cc
+++ b/nsasm/assembler.cc
@@ -123,13 +123,16 @@ nsasm::ErrorOr<void> Assembler::Assemble(OutputSink* sink) {
 
 absl::optional<FullIdentifier> Assembler::NameForAddress(
     nsasm::Address address) const {
+  // Several modules may name the same address.  Choose among them by name, so
+  // that the result does not depend on the order of the files.
+  absl::optional<FullIdentifier> result;
   for (const Module& module : modules_) {
     auto v = module.NameForAddress(address);
-    if (v.has_value()) {
-      return v;
+    if (v.has_value() && (!result.has_value() || *v < *result)) {
+      result.emplace(*v);
     }
   }
-  return absl::nullopt;
+  return result;
 }
 
 std::map<nsasm::Address, StatusFlags> Assembler::JumpTargets() const {
-- 
2.43.0

