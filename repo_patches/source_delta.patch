From 2db22c187b1cc657b1c44f6692874cf62c461914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 01/25] fix: keep the carry when adding a 64-bit built-in value
 to Aeu

---
 include/AesiMultiprecision/Aeu.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..b46f25d 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -361,9 +361,10 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
+            uint64_t carryOut = static_cast<uint64_t>(addendum);
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + carryOut % blockBase;
+                carryOut = carryOut / blockBase + currentSum / blockBase; addition.blocks[i] = static_cast<block>(currentSum % blockBase);
             }
             return addition;
         }
-- 
2.43.0


From c09d6f4434add8f28fe0d6c1d056c06fa9a33635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 02/25] fix: multiply Aeu by every 64-bit unsigned type without
 losing the carry

unsigned long long and uint64_t are distinct types on LP64, so the former took
the path for narrower types, where factor * block + carry exceeds 64 bits.
---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index b46f25d..b176f14 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -437,7 +437,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) == sizeof(uint64_t)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From ffcc3e83b444793035d02288bdccba0fb712b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 03/25] fix: compare the high blocks first when Aeu widths
 differ

compareTo decided on the common low blocks before looking at the blocks only
the wider operand has, so 2^96 compared less than 1 at a narrower width.
---
 include/AesiMultiprecision/Aeu.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index b176f14..c6327dc 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -807,12 +807,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
-
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
                 if (other.totalBlocksNumber() > blocksNumber) {
@@ -826,6 +820,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 5fe7ab0dd007751eb4e8f3907e57a0591404f83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 04/25] fix: treat the byte index equal to the byte count as
 out of range

setByte wrote and getByte read one block past the number for this index.
---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c6327dc..1ac018f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -930,7 +930,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -946,7 +946,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From 8a72ddfc9112d7097eff8d455278106d25a5bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 05/25] fix: construct Aesi from the most negative built-in
 value

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..0557a7c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -100,7 +100,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(0ULL - static_cast<unsigned long long>(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
-- 
2.43.0


From 756676571d8dd53763642fc012304ed99c776e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 06/25] fix: multiply Aesi by the most negative built-in value

---
 include/AesiMultiprecision/Aesi.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 0557a7c..704bb40 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -428,11 +428,12 @@ public:
             if(factor == 0) {
                 multiplication.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
+                    magnitude = 0ULL - magnitude;
                 }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                multiplication.base *= magnitude;
             }
             return multiplication;
         }
-- 
2.43.0


From 174f3c7627d606e65a82f923f3a8cd475439af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 07/25] fix: keep the dividend's sign in signed remainders and
 accept the most negative built-in divisor

---
 include/AesiMultiprecision/Aesi.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 704bb40..91c1bb0 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -495,11 +495,12 @@ public:
             if(divisor == 0) {
                 division.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
+                    magnitude = 0ULL - magnitude;
                 }
-                division.base /= static_cast<unsigned long long>(divisor);
+                division.base /= magnitude;
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
@@ -565,11 +566,11 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero;
             } else {
-                if(modulo < 0) {
-                    modulation.inverse();
-                    modulo = static_cast<Integral>(-modulo);
-                }
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                auto magnitude = static_cast<unsigned long long>(modulo);
+                if(modulo < 0)
+                    magnitude = 0ULL - magnitude;
+                modulation.base %= magnitude;
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
@@ -586,8 +587,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From 28334661bdf00b4ff238a738f1cfefe86a4c3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 08/25] fix: compare Aesi with the most negative built-in value
 without overflow

---
 include/AesiMultiprecision/Aesi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 91c1bb0..4e6cb1d 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -659,7 +659,7 @@ public:
                 }
             } else if(integral < 0) {
                 if(sign == Negative)
-                    switch(base.compareTo(static_cast<uint64_t>(-static_cast<int64_t>(integral)))) {
+                    switch(base.compareTo(uint64_t { 0 } - static_cast<uint64_t>(integral))) {
                         using enum Comparison;
                         case greater:
                             return less;
@@ -671,7 +671,7 @@ public:
                 else return greater;
             } else {
                 if(sign == Positive)
-                    return base.compareTo(static_cast<uint64_t>(static_cast<int64_t>(integral)));
+                    return base.compareTo(static_cast<uint64_t>(integral));
                 return less;
             }
         }
-- 
2.43.0


From 02e31f708186655b78050761797e8ea09551e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 09/25] fix: cast Aesi to the most negative built-in value
 without overflow

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 4e6cb1d..6aabeab 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1011,7 +1011,7 @@ public:
 
         if constexpr (std::is_signed_v<Integral>) {
             if(sign == Negative)
-                return base.template integralCast<Integral>() * -1;
+                return static_cast<Integral>(0ULL - base.template integralCast<unsigned long long>());
         }
 
         return base.template integralCast<Integral>();
-- 
2.43.0


From 8206ae6b88fec12078e3b2e3e0351592f325e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 10/25] fix: give Aesi built from an unsigned zero the zero
 sign

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 6aabeab..4b39bc9 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -148,7 +148,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
-- 
2.43.0


From 084a6df4fa29bee608661cd1d761c54e1406bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 11/25] fix: clear the magnitude when a signed operation yields
 zero

---
 include/AesiMultiprecision/Aesi.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 4b39bc9..d801af0 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -290,6 +290,7 @@ public:
                     }
                     default: {
                         lSign = Zero;
+                        lBase = {};
                         return addition;
                     }
                 }
@@ -307,6 +308,7 @@ public:
                     }
                     default: {
                         lSign = Zero;
+                        lBase = {};
                         return addition;
                     }
                 }
@@ -360,6 +362,7 @@ public:
                         }
                         default: {
                             lSign = Zero;
+                            lBase = {};
                             return subtraction;
                         }
                     }
@@ -382,6 +385,7 @@ public:
                         }
                         default: {
                             lSign = Zero;
+                            lBase = {};
                             return subtraction;
                         }
                     }
@@ -427,6 +431,7 @@ public:
             using enum Sign;
             if(factor == 0) {
                 multiplication.sign = Zero;
+                multiplication.base = {};
             } else {
                 auto magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
@@ -448,6 +453,7 @@ public:
             using enum Sign;
             if(factor.isZero()) {
                 multiplication.sign = Zero;
+                multiplication.base = {};
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
@@ -494,6 +500,7 @@ public:
             using enum Sign;
             if(divisor == 0) {
                 division.sign = Zero;
+                division.base = {};
             } else {
                 auto magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
@@ -517,6 +524,7 @@ public:
             using enum Sign;
             if(divisor.isZero()) {
                 division.sign = Zero;
+                division.base = {};
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -565,6 +573,7 @@ public:
             using enum Sign;
             if(modulo == 0) {
                 modulation.sign = Zero;
+                modulation.base = {};
             } else {
                 auto magnitude = static_cast<unsigned long long>(modulo);
                 if(modulo < 0)
@@ -942,8 +951,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient = Aesi { 0 };
+            remainder = Aesi { 0 };
             return;
         }
 
-- 
2.43.0


From f5221d1767f41b63b6f561f380c531cef07267b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 12/25] fix: give a signed result that wraps around to zero the
 zero sign

---
 include/AesiMultiprecision/Aesi.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index d801af0..fe15424 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -212,7 +212,7 @@ public:
             if(sign == Negative) {
                 --base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Positive; }
             return *this;
         }
@@ -230,7 +230,7 @@ public:
         gpu constexpr auto operator--() noexcept -> Aesi& {
             using enum Sign;
             if(sign == Negative) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
                 --base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Negative; }
@@ -273,6 +273,7 @@ public:
                 return addition = addendum;
             else if(lSign == rSign) {
                 lBase += rBase;
+                if(lBase.isZero()) lSign = Zero;
                 return addition;
             }
 
@@ -368,6 +369,7 @@ public:
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             } else {
@@ -391,6 +393,7 @@ public:
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             }
@@ -439,6 +442,7 @@ public:
                     magnitude = 0ULL - magnitude;
                 }
                 multiplication.base *= magnitude;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -458,6 +462,7 @@ public:
                 if(factor.isNegative())
                     multiplication.inverse();
                 multiplication.base *= factor.base;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
-- 
2.43.0


From b69546a0eecc099eb5208f2967dd95740d7ca482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 13/25] fix: return the canonical zero when a narrowing Aesi
 cast drops every set bit

---
 include/AesiMultiprecision/Aesi.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index fe15424..f7751f2 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1048,7 +1048,8 @@ public:
             if(sign == Negative)
                 result.inverse();
 
-            return result;
+            if(result.filledBlocksNumber() != 0)
+                return result;
         }
 
         return Aesi<newBitness> {};
-- 
2.43.0


From bfcf003fa95d8f6ce443ee5610d23c078d0f3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 14/25] fix: compare signed numbers of different widths in the
 wider one

---
 include/AesiMultiprecision/Aesi.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index f7751f2..d35eed2 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -634,7 +634,7 @@ public:
             if constexpr (bitness == otherBitness) {
                 return our.compareTo(other) == Comparison::equal;
             } else {
-                return our.precisionCast<otherBitness>() == other;
+                return our.compareTo(other) == Comparison::equal;
             }
         }
 
@@ -697,7 +697,10 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
+            if constexpr (otherBitness > bitness)
+                return precisionCast<otherBitness>().compareTo(value);
+            else
+                return compareTo(value.template precisionCast<bitness>());
         }
 
         /**
-- 
2.43.0


From 3a52c213c330703e159361220a9ffc4a2e3870ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 15/25] fix: powm of base zero or one and modulo one with an
 exponent of another width

---
 include/AesiMultiprecision/Aeu.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 1ac018f..e8a5e88 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1200,12 +1200,7 @@ public:
      */
     template <std::size_t powerBitness = bitness> [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
-        if(base == 1u)
-            return base;
-        if(base == 0u)
-            return { 1u };
-
-        Aeu output = 1u;
+        Aeu output = Aeu(1u) % modulo;
         auto [_, b] = divide(base, modulo);
 
         for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
@@ -1223,7 +1218,7 @@ public:
 
     [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
-        Aeu output = 1u;
+        Aeu output = Aeu(1u) % mod;
         auto [_, b] = divide(base, mod);
 
         for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
-- 
2.43.0


From 822ca2952e88720bcd114dc324cd48ab6ec43184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 16/25] fix: text constructor passed negative characters to
 std::isalnum

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index e8a5e88..c3c1c2f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -188,7 +188,7 @@ public:
         std::size_t position = 0;
 
         if constexpr (std::is_same_v<Char, char>) {
-            for(; position < size && !std::isalnum(data[position]); ++position) ;
+            for(; position < size && !std::isalnum(static_cast<unsigned char>(data[position])); ++position) ;
         } else {
             for(; position < size && !std::iswalnum(static_cast<wint_t>(data[position])); ++position) ;
         }
-- 
2.43.0


From c11f80b6c6eeea4c964dededb63b4e0ee9db2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:20 +0000
Subject: [PATCH 17/25] fix: getString kept its writes inside a buffer shorter
 than the numeral

---
 include/AesiMultiprecision/Aeu.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c3c1c2f..cdf34f6 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1314,32 +1314,38 @@ public:
             for (; iter > 0 && blocks[iter] == 0; --iter)
                 ;
 
+            /* Amount of symbols which have fitted in the buffer (s(n)printf reports the untruncated length or an error) */
+            const auto fitted = [&position, bufferSize] (int printed) {
+                const auto available = bufferSize - position - 1;
+                return printed < 0 || static_cast<std::size_t>(printed) > available ? available : static_cast<std::size_t>(printed);
+            };
+
             if constexpr (std::is_same_v<Char, char>) {
                 if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
+                    position += fitted(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
+                        position += fitted(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
                 } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
+                    position += fitted(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
+                        position += fitted(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
                 }
             } else {
                 if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
+                    position += fitted(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
+                        position += fitted(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
                 } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
+                    position += fitted(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
                     for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
+                        position += fitted(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
                 }
             }
         } else {
             const auto startPosition = position;
 
             Aeu copy = *this;
-            while (!copy.isZero() && position < bufferSize) {
+            while (!copy.isZero() && position < bufferSize - 1) {
                 auto [quotient, remainder] = divide(copy, base);
                 if constexpr (std::is_same_v<Char, char>) {
                     buffer[position++] = static_cast<Char>('0' + remainder.template integralCast<byte>());
-- 
2.43.0


From c1b258c2b62d550cfa6e738d62d204f11cf68021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 18/25] fix: getString terminates the numeral of zero

---
 include/AesiMultiprecision/Aeu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index cdf34f6..16ef3ac 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1306,6 +1306,7 @@ public:
 
         if(isZero()) {
             buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
+            buffer[position++] = Char {};
             return position;
         }
 
-- 
2.43.0


From bf70cd24ef27e36326eb7ceb330d76465fffc884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 19/25] fix: Aesi getString respects the buffer size for zero
 and counts the dash

---
 include/AesiMultiprecision/Aesi.h | 45 ++++---------------------------
 1 file changed, 5 insertions(+), 40 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index d35eed2..122024c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1079,47 +1079,12 @@ public:
     gpu constexpr auto getString(Char* buffer, std::size_t bufferSize, bool showBase = false) const noexcept -> std::size_t {
         using enum Sign;
 
-        if(sign != Zero) {
-            if(sign == Negative && bufferSize > 0) {
-                *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
-                --bufferSize;
-            }
-            return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
-        }
-
-        if(showBase) {
-            switch(notation) {
-                case 2: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 8: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 16: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                default: {
-                    if(bufferSize < 1) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    return 1;
-                }
-            }
+        std::size_t dash = 0;
+        if(sign == Negative && bufferSize > 0) {
+            *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
+            --bufferSize; dash = 1;
         }
-
-        buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-        return 1;
+        return dash + base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
     }
 
     /**
-- 
2.43.0


From 742375a711a528df6c54e06113f15861e6f0b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:59 +0000
Subject: [PATCH 20/25] fix: operator<< left the stream without showbase and
 with another fill and adjustment

---
 include/AesiMultiprecision/Aeu.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 16ef3ac..ce1f280 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1379,7 +1379,7 @@ public:
      */
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
     friend constexpr auto operator<<(std::basic_ostream<Char>& os, const Aeu& number) -> std::basic_ostream<Char>& {
-        auto flags = os.flags();
+        const auto flags = os.flags();
 
         const auto base = [] (long baseField, std::basic_ostream<Char>& ss, bool showbase) {
             auto tBase = (baseField == std::ios::hex ? 16u : (baseField == std::ios::oct ? 8u : 10u));
@@ -1394,19 +1394,20 @@ public:
             return tBase;
         } (flags & std::ios::basefield, os, flags & std::ios::showbase);
 
-        if(number.isZero())
-            return os << '0';
-
-        if(base == 16) {
+        if(number.isZero()) {
+            os << '0';
+        } else if(base == 16) {
             std::size_t iter = number.blocks.size() - 1;
             for(; iter > 0 && number.blocks[iter] == 0; --iter)
                 ;
 
             os << number.blocks[iter];
+            const auto fill = os.fill();
             for (; iter-- > 0;) {
                 os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
                 os.width(8); os << std::right << number.blocks[iter];
             }
+            os.fill(fill);
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
@@ -1424,6 +1425,7 @@ public:
                 os << buffer[filled - 1];
         }
 
+        os.flags(flags);
         return os;
     }
 
-- 
2.43.0


From 43284a6213391e41b712dca4a5ca5161451d5a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 21/25] fix: operator<< prints the base of an Aesi zero on a
 showbase stream

---
 include/AesiMultiprecision/Aesi.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 122024c..54ff829 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1101,12 +1101,9 @@ public:
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
     friend constexpr auto operator<<(std::basic_ostream<Char>& os, const Aesi& number) -> std::basic_ostream<Char>& {
         using enum Sign;
-        if(number.sign != Zero) {
-            if(number.sign == Negative)
-                os << [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
-            return os << number.base;
-        }
-        return os << '0';
+        if(number.sign == Negative)
+            os << [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
+        return os << number.base;
     }
     /* ----------------------------------------------------------------------- */
 
-- 
2.43.0


From 023c25fa1e685188b2a6a4237d3085f5e6f1ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:40 +0000
Subject: [PATCH 22/25] fix: power2 beyond the width returns zero with
 AESI_UNSAFE too

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index ce1f280..943ff43 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1241,7 +1241,7 @@ public:
      * @details Returns zero for power greater than current bitness
      */
     [[nodiscard]]
-    gpu static constexpr auto power2(std::size_t power) noexcept -> Aeu { Aeu result {}; result.setBit(power, true); return result; }
+    gpu static constexpr auto power2(std::size_t power) noexcept -> Aeu { Aeu result {}; if(power < bitness) result.setBit(power, true); return result; }
     
     /**
      * @brief Get square root
-- 
2.43.0


From 43f42ed638261c79fe0078e5503bb62598260a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 23/25] fix: construction from a wide mpz wrote past the blocks
 with AESI_UNSAFE

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 943ff43..2788a34 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -262,7 +262,7 @@ public:
         std::vector<block> buffer (tBlocksNumber, 0u);
         mpz_export(buffer.data(), &tBlocksNumber, -1, sizeof(block), -1, 0, value.get_mpz_t());
 
-        for (std::size_t i = 0; i < tBlocksNumber; ++i)
+        for (std::size_t i = 0; i < tBlocksNumber && i < blocksNumber; ++i)
             setBlock(i, buffer[i]);
     }
 #endif
-- 
2.43.0


From f14dce0cabaefa32cf95336122eb9ed8d2edceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 24/25] fix: comparing with a GMP number that does not fit the
 width truncated it

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 54ff829..d0576bf 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -647,7 +647,7 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aesi(mpz_class(other));
+            return mpz_sizeinbase(mpz_class(other).get_mpz_t(), 2) <= bitness && our == Aesi(mpz_class(other));
         }
 #endif
     /* --------------------------------------------------------------------------- */
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 2788a34..5c817d3 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -752,7 +752,7 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aeu(mpz_class(other));
+            return other >= 0 && mpz_sizeinbase(mpz_class(other).get_mpz_t(), 2) <= bitness && our == Aeu(mpz_class(other));
         }
 #endif
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From d5612e26c673fae475632cb0c0a7164d53b81f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 25/25] fix: an Aesi built from an mpz multiple of the modulus
 is zero without a sign

---
 include/AesiMultiprecision/Aesi.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index d0576bf..47ae13d 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -163,7 +163,9 @@ public:
             sign = Zero;
         } else {
             base = number;
-            if(number < 0)
+            if(base.isZero())
+                sign = Zero;
+            else if(number < 0)
                 sign = Negative;
             else sign = Positive;
         }
-- 
2.43.0

