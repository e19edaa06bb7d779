From daf95e9ca820791b39f634472d8dd363f3788e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 01/23] fix: byte_select() returned garbage (shifting by the
 full width) for index == sizeof(T)

---
 include/muu/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bit.h b/include/muu/bit.h
index bfca4d7..3aa8464 100644
--- a/include/muu/bit.h
+++ b/include/muu/bit.h
@@ -154,7 +154,7 @@ namespace muu
 	{
 		static_assert(!is_cvref<T>);
 
-		if (index > sizeof(T))
+		if (index >= sizeof(T))
 			return uint8_t{};
 
 		if constexpr (std::is_enum_v<T>)
-- 
2.43.0


From ca047f5206b5e38f1c98f8ed7c0a9b0678b93a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 02/23] fix: atan2(half, half) passed its arguments in the
 wrong order

---
 include/muu/half.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 2ef89c6..3165a52 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1213,7 +1213,7 @@ namespace muu
 	MUU_CONST_INLINE_GETTER
 	constexpr half MUU_VECTORCALL atan2(half y, half x) noexcept
 	{
-		return half{ muu::atan2(static_cast<float>(x), static_cast<float>(y)) };
+		return half{ muu::atan2(static_cast<float>(y), static_cast<float>(x)) };
 	}
 
 	/// \brief	Returns a linear interpolation between two half-precision floats.
-- 
2.43.0


From f30485511d8a3048275c6025c3a1a1d4b4d2c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:22 +0000
Subject: [PATCH 03/23] fix: utf16_decoder never combined surrogate pairs

---
 include/muu/utf16_decoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/utf16_decoder.h b/include/muu/utf16_decoder.h
index 2d79e02..b74b437 100644
--- a/include/muu/utf16_decoder.h
+++ b/include/muu/utf16_decoder.h
@@ -90,7 +90,7 @@ namespace muu
 				case unwrap(high_surrogate) | ds_initial: [[fallthrough]];
 				case unwrap(high_surrogate) | ds_has_codepoint:
 					codepoint = static_cast<uint_least32_t>(code_unit); // will get multiplexed in the next step
-					state	  = ds_has_codepoint;
+					state	  = ds_expecting_low_surrogate;
 					return;
 
 				case unwrap(low_surrogate) | ds_expecting_low_surrogate:
-- 
2.43.0


From f1cf681898f9c262ed0bf8cd824e74f5b4272034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:01 +0000
Subject: [PATCH 04/23] fix: utf_decode() byte-swapped text when the endianness
 heuristic tied

---
 include/muu/utf_decode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 3fab110..8dae63c 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -61,7 +61,7 @@ namespace muu::impl
 		if constexpr (build::is_big_endian)
 			return low > high;
 		else
-			return high > low;
+			return high >= low;
 	}
 }
 /// \endcond
-- 
2.43.0


From 1b2a4b37e8da0e87480954ea5a427439e5533cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:55 +0000
Subject: [PATCH 05/23] fix: utf_decode() lost truncated sequences and leaked
 decoder state when walking in reverse

---
 include/muu/utf_decode.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 8dae63c..70db80d 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -171,7 +171,6 @@ namespace muu
 						!impl::utf_detect_platform_endian(str.data(), str.data() + min(str.length(), 16_sz));
 			}
 
-			impl::utf_decoder<T> decoder;
 			if (reverse)
 			{
 				size_t cp_start				  = str.length();
@@ -180,8 +179,9 @@ namespace muu
 				while (cp_start-- > data_start && !stop)
 				{
 					cu_count++;
-					if (cu_count == max_cu_count || is_code_point_boundary(get(cp_start)))
+					if (cu_count == max_cu_count || cp_start == data_start || is_code_point_boundary(get(cp_start)))
 					{
+						impl::utf_decoder<T> decoder;
 						for (size_t i = cp_start, e = cp_start + cu_count; i < e; i++)
 						{
 							decoder(get(i));
@@ -191,9 +191,8 @@ namespace muu
 
 						if (decoder.has_value())
 							stop = stop_after_invoking(static_cast<Func&&>(func), decoder.value(), cp_start, cu_count);
-						else if (decoder.error())
+						else // malformed or truncated
 						{
-							decoder.clear_error();
 							for (size_t i = cp_start + cu_count; i-- > cp_start && !stop;)
 								stop =
 									stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(i)), i, 1);
@@ -204,6 +203,7 @@ namespace muu
 			}
 			else
 			{
+				impl::utf_decoder<T> decoder;
 				for (size_t i = data_start, e = str.length(), cp_start = data_start, cu_count = 0; i < e && !stop; i++)
 				{
 					cu_count++;
@@ -214,9 +214,9 @@ namespace muu
 						cp_start = i + 1u;
 						cu_count = {};
 					}
-					else if (decoder.error())
+					else if (decoder.error() || i + 1u == e) // malformed or truncated
 					{
-						decoder.clear_error();
+						decoder = {};
 						for (size_t j = cp_start, je = cp_start + cu_count; j < je && !stop; j++)
 							stop = stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(j)), j, 1);
 						cp_start = i + 1u;
-- 
2.43.0


From 9052a84e08b6be3294af1b9d23cec4f42de550ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 06/23] fix: transcoding dropped embedded NUL code points

---
 include/muu/strings.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/muu/strings.h b/include/muu/strings.h
index c870eaa..4294bae 100644
--- a/include/muu/strings.h
+++ b/include/muu/strings.h
@@ -79,6 +79,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 1);
 			T code_units[4] = {};
+			size_t count	= {};
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -87,17 +88,20 @@ namespace muu
 				if (cp <= 0x7Fu)
 				{
 					code_units[0] = static_cast<T>(cp);
+					count		  = 1u;
 				}
 				else if (cp <= 0x7FFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 6) | 0xC0u);
 					code_units[1] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					count		  = 2u;
 				}
 				else if (cp <= 0xFFFFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 12) | 0xE0u);
 					code_units[1] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					count		  = 3u;
 				}
 				else if (cp <= 0x10FFFFu)
 				{
@@ -105,6 +109,7 @@ namespace muu
 					code_units[1] = static_cast<T>(((cp >> 12) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[3] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					count		  = 4u;
 				}
 			}
 
@@ -116,8 +121,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[3] ? std::basic_string_view<T>{ code_units, 4_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return std::basic_string_view<T>{ code_units, count };
 			}
 
 			MUU_PURE_INLINE_GETTER
@@ -158,8 +162,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[1] ? std::basic_string_view<T>{ code_units, 2_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return std::basic_string_view<T>{ code_units, code_units[1] ? 2_sz : 1_sz };
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 9144f55b30f2228805a6e2111cf45e427b431544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:18 +0000
Subject: [PATCH 07/23] fix: code point classification reached MUU_UNREACHABLE
 for some code points

is_uppercase(U'\u2182'), is_whitespace(U'\u1610'), is_hyphen(U'\u0590') and others were undefined behaviour
---
 include/muu/impl/unicode_char16_t.h | 6 +++---
 include/muu/impl/unicode_char32_t.h | 6 +++---
 tools/generate_unicode_functions.py | 3 +++
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/muu/impl/unicode_char16_t.h b/include/muu/impl/unicode_char16_t.h
index 21c4fdb..6cf4f97 100644
--- a/include/muu/impl/unicode_char16_t.h
+++ b/include/muu/impl/unicode_char16_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= u'\u2010' && c <= u'\u2011';
 			case 0x3F: return c == u'\uFE63' || c == u'\uFF0D' || c == u'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -872,7 +872,7 @@ namespace muu
 					case 0x00: return c <= u'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= u'\u2145' && c <= u'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -967,7 +967,7 @@ namespace muu
 				return c == u'\u205F'
 					|| (c <= u'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/include/muu/impl/unicode_char32_t.h b/include/muu/impl/unicode_char32_t.h
index 5152c8f..5cf8ba8 100644
--- a/include/muu/impl/unicode_char32_t.h
+++ b/include/muu/impl/unicode_char32_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= U'\u2010' && c <= U'\u2011';
 			case 0x3F: return c == U'\uFE63' || c == U'\uFF0D' || c == U'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -1007,7 +1007,7 @@ namespace muu
 					case 0x00: return c <= U'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= U'\u2145' && c <= U'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -1102,7 +1102,7 @@ namespace muu
 				return c == U'\u205F'
 					|| (c <= U'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/tools/generate_unicode_functions.py b/tools/generate_unicode_functions.py
index 8ea6ccf..94d785b 100644
--- a/tools/generate_unicode_functions.py
+++ b/tools/generate_unicode_functions.py
@@ -1118,6 +1118,9 @@ class CodepointChunk:
 							'\n' if c.has_expression() else '\n\t}\n',
 						)
 						emitted += 1
+					# children handled above by a simple equality test reach the switch when the test fails
+					if default is None and emittables_simple_equality:
+						default = False
 					s += '\tdefault: {};\n'.format(rf'{G.macro_prefix}UNREACHABLE' if default is None else 'return '+str(default).lower())
 					s += "}"
 					if (emitted <= 1):
-- 
2.43.0


From f5ee66dec78fd09e4d8e279f85fe52a26f3fe33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 08/23] fix: signed tags overwrote the pointer bits of
 tagged_ptr

---
 include/muu/tagged_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 677bbb9..0063d5f 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -206,7 +206,7 @@ namespace muu::impl
 					}
 					else
 					{
-						return pack_ptr(ptr) | static_cast<uintptr_t>(tag);
+						return pack_ptr(ptr) | (static_cast<uintptr_t>(tag) & tag_mask);
 					}
 				}
 				else // some pod type
@@ -259,7 +259,7 @@ namespace muu::impl
 			}
 			else
 			{
-				return (bits & ptr_mask) | static_cast<uintptr_t>(tag);
+				return (bits & ptr_mask) | (static_cast<uintptr_t>(tag) & tag_mask);
 			}
 		}
 
-- 
2.43.0


From 81841fa74c69222890817a030df9811b8717fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 09/23] fix: apply_alignment<A>(enum) did not compile

---
 include/muu/apply_alignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/apply_alignment.h b/include/muu/apply_alignment.h
index 648335f..a936337 100644
--- a/include/muu/apply_alignment.h
+++ b/include/muu/apply_alignment.h
@@ -30,7 +30,7 @@ namespace muu
 
 		if constexpr (std::is_enum_v<T>)
 		{
-			return static_cast<T>(apply_alignment(static_cast<std::underlying_type_t<T>>(val)));
+			return static_cast<T>(apply_alignment<Alignment>(static_cast<std::underlying_type_t<T>>(val)));
 		}
 		else
 		{
-- 
2.43.0


From 4f0020ea643b80af14e0ea72a16948745755977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:56 +0000
Subject: [PATCH 10/23] fix: aligned_alloc() returned an undersized block when
 rounding the size up overflowed

---
 include/muu/aligned_alloc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/muu/aligned_alloc.h b/include/muu/aligned_alloc.h
index 83a0e65..481826d 100644
--- a/include/muu/aligned_alloc.h
+++ b/include/muu/aligned_alloc.h
@@ -36,6 +36,8 @@ namespace muu
 		MUU_ASSUME(static_cast<size_t>(alignment));
 
 		alignment = alignment > impl::aligned_alloc_min_align ? alignment : impl::aligned_alloc_min_align;
+		if (size > static_cast<size_t>(-1) - (alignment - 1u)) // rounding up would overflow
+			return nullptr;
 		size	  = (size + alignment - 1u) & ~(alignment - 1u);
 
 #if MUU_WINDOWS
-- 
2.43.0


From f49d675721cc999121695b05cde2b6ae9a00f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:43 +0000
Subject: [PATCH 11/23] fix: sha1 lost the message length after 2^32 blocks

---
 include/muu/hashing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/hashing.h b/include/muu/hashing.h
index b77e962..0517484 100644
--- a/include/muu/hashing.h
+++ b/include/muu/hashing.h
@@ -307,7 +307,7 @@ namespace muu
 			digest_bytes digest;
 			hash_bytes hash;
 		} state;
-		uint32_t processed_blocks{};
+		uint64_t processed_blocks{};
 		uint8_t current_block_length{};
 		uint8_t current_block[64];
 		bool finished_ = false;
-- 
2.43.0


From 6c1cf2a4372653f8cd23c654e239d7d44f6f7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:46 +0000
Subject: [PATCH 12/23] fix: the difference of two pointer-range iterators did
 not compile

---
 include/muu/integral_range.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 48755b7..6f0df3e 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -150,7 +150,10 @@ namespace muu
 															 - static_cast<size_type>(lhs.val_));
 				}
 
-				return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
+				if constexpr (std::is_pointer_v<T>)
+					return lhs.val_ - rhs.val_;
+				else
+					return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
 			}
 		};
 	}
-- 
2.43.0


From 62b4729cf7bbed15a55a2ff242b83445161d8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 13/23] fix: integral_range::size() overflowed for ranges
 spanning more than half of a signed type

---
 include/muu/integral_range.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 6f0df3e..f39b4c1 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -229,13 +229,7 @@ namespace muu
 		{
 			if constexpr (std::is_pointer_v<value_type>)
 				return static_cast<size_type>(e - s);
-			else if constexpr (muu::is_signed<value_type>)
-			{
-				using difference_type = impl::integral_range_difference_type<T>;
-
-				return static_cast<size_type>(static_cast<difference_type>(e) - static_cast<difference_type>(s));
-			}
-			else
+			else // conversion to size_type is modular (sign-extending), so this is exact for signed values, too
 				return static_cast<size_type>(e) - static_cast<size_type>(s);
 		}
 
-- 
2.43.0


From 7024a7528752b27c61ed03d7ab79fbf653c6af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 14/23] fix: the difference of unsigned range iterators
 overflowed in the upper half of the type

---
 include/muu/integral_range.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index f39b4c1..1264231 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -148,6 +148,9 @@ namespace muu
 					if (rhs.val_ > lhs.val_)
 						return -static_cast<difference_type>(static_cast<size_type>(rhs.val_)
 															 - static_cast<size_type>(lhs.val_));
+
+					return static_cast<difference_type>(static_cast<size_type>(lhs.val_)
+														- static_cast<size_type>(rhs.val_));
 				}
 
 				if constexpr (std::is_pointer_v<T>)
-- 
2.43.0


From 5a8bcf841cd9928bf5bd22e156623ce8b66c3688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:42 +0000
Subject: [PATCH 15/23] fix: moving an unsigned range iterator by a signed
 offset overflowed in the upper half of the type

---
 include/muu/integral_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 1264231..b95f0d0 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -104,7 +104,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ + offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) + offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) + static_cast<size_type>(offset));
 
 				return *this;
 			}
@@ -114,7 +114,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ - offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) - offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) - static_cast<size_type>(offset));
 
 				return *this;
 			}
-- 
2.43.0


From a8033f31ba063258e2e1ab2dfdf6d67920197d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:33 +0000
Subject: [PATCH 16/23] fix: merging accumulators lost samples

---
 include/muu/accumulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6e2a807..05dd09f 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -154,7 +154,7 @@ namespace muu
 		{
 			if (!other.empty())
 			{
-				if (empty())
+				if (!empty())
 				{
 					impl_and_count.first().add(other.impl_and_count.first());
 					impl_and_count.second() += other.impl_and_count.second();
-- 
2.43.0


From b00b84917dcfe7968f9d85253c5f29f1c0e97d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:33 +0000
Subject: [PATCH 17/23] fix: merging floating-point accumulators did not
 compile

---
 include/muu/accumulator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 05dd09f..f9a614f 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -305,7 +305,9 @@ namespace muu
 				using muu::max;
 				min_ = min(other.min_, min_);
 				max_ = max(other.max_, max_);
-				kahan_add(other.sum);
+				const auto other_correction = other.correction_; // other may be *this
+				kahan_add(other.sum_);
+				correction_ += other_correction;
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 8b4d42063bcb16c719e06e86508548c7f5c7abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:52 +0000
Subject: [PATCH 18/23] fix: between() of an unsigned value rejected everything
 when the lower bound was negative

---
 include/muu/impl/core_utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index f8b72c1..447cb6b 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -124,6 +124,8 @@ namespace muu
 				{
 					if (high < rhs{})
 						return false;
+					if (low < rhs{})
+						return between(val, rhs{}, high);
 				}
 				if constexpr (!std::is_same_v<lhs, rhs>)
 				{
-- 
2.43.0


From f94c14546b2f536dcab5a166296fa81b68661e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:20 +0000
Subject: [PATCH 19/23] fix: copying a non-const function_view viewed the view
 instead of its callable

---
 include/muu/function_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 319ecd6..7aee53f 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -222,7 +222,7 @@ namespace muu
 		/// \tparam	F	 	A function, lambda or other callable type with a signature compatible with #func_type.
 		///
 		/// \param 	func	The callable to view/invoke.
-		template <typename F>
+		MUU_CONSTRAINED_TEMPLATE((!std::is_same_v<remove_cvref<F>, function_view>), typename F)
 		MUU_NODISCARD_CTOR
 		/* implicit */ constexpr function_view(F&& func) noexcept //
 			: base{ static_cast<F&&>(func) }
-- 
2.43.0


From aaed1e542e331c737305bb0ee698572fd7967371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:25 +0000
Subject: [PATCH 20/23] fix: comparing a fixed_string with itself, and char
 strings of equal length with bytes above 0x7F, disagreed with the
 lexicographic order

---
 include/muu/fixed_string.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 1761175..fb8b6a9 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -771,7 +771,7 @@ namespace muu
 				if constexpr (Length == Len)
 				{
 					if (&lhs == &rhs)
-						return true;
+						return 0;
 
 					return traits_type::compare(lhs._chars_, rhs.c_str(), Length);
 				}
@@ -845,7 +845,10 @@ namespace muu
 		}
 
 	#if MUU_HAS_THREE_WAY_COMPARISON
-		friend constexpr auto operator<=>(const fixed_string&, const fixed_string&) noexcept = default;
+		friend constexpr std::strong_ordering operator<=>(const fixed_string& lhs, const fixed_string& rhs) noexcept
+		{
+			return compare(lhs, rhs) <=> 0;
+		}
 	#endif
 
 		/// @}
-- 
2.43.0


From c940b01b26f979edbbf3a55ad988b712b0c98674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:25 +0000
Subject: [PATCH 21/23] fix: blob::assign freed its storage before copying from
 it when the source was the blob's own data

---
 include/muu/blob.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 0c0bc31..942a1e3 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -105,12 +105,12 @@ namespace muu
 		blob& assign(size_t sz, const void* src, size_t new_align = {})
 		{
 			new_align = actual_alignment(sz, new_align);
-
-			// check if this is effectively a resize with a copy or move
-			if (new_align <= alignment_)
-			{
+			if (new_align < alignment_)
 				new_align = alignment_;
 
+			// check if this is effectively a resize or an overwrite
+			if (new_align == alignment_ && (!src || sz == size_))
+			{
 				resize(sz); // no-op if the same size as current
 				MUU_ASSERT(size_ == sz);
 
@@ -120,14 +120,15 @@ namespace muu
 				return *this;
 			}
 
-			// changing alignment; must deallocate and reallocate
-			if (data_)
-				aligned_free(data_);
-			alignment_ = new_align;
-			size_	   = sz;
-			data_	   = size_ ? aligned_alloc(size_, alignment_) : nullptr;
+			// must reallocate; src may be part of the old data so keep that alive until it has been copied
+			auto old_data = data_;
+			alignment_	  = new_align;
+			size_		  = sz;
+			data_		  = size_ ? aligned_alloc(size_, alignment_) : nullptr;
 			if (src && data_)
 				MUU_MEMCPY(data_, src, size_);
+			if (old_data)
+				aligned_free(old_data);
 			return *this;
 		}
 
-- 
2.43.0


From 54dce3a658851b04ae9544fb6fcab31aaf15dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 22/23] fix: begin(), end() and data() of an emplacement_array
 without storage returned null from functions declared never to

---
 include/muu/emplacement_array.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 287ec81..4adcb5c 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -36,14 +36,12 @@ namespace muu
 		std::byte* storage_ = nullptr;
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		T* ptr(size_t index) noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<T*>(storage_ + index * sizeof(T)));
 		}
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		const T* ptr(size_t index) const noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<const T*>(storage_ + index * sizeof(T)));
-- 
2.43.0


From d2553664242483b10c0d7faf12cfa8756ed65c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:31 +0000
Subject: [PATCH 23/23] fix: moving or trimming an empty string_param, and
 viewing malformed text as another encoding, read a string that is not there

---
 src/string_param.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index d8948ac..0f09d13 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -434,6 +434,14 @@ string_param& string_param::operator=(string_param&& rhs_) noexcept
 	if (&rhs_ == this)
 		return *this;
 
+	// an empty rhs holds no string to move
+	if (!rhs_.mode_)
+	{
+		if (mode_)
+			destroy(storage_, mode_);
+		return *this;
+	}
+
 	// if they're the same we can just move (don't need to destroy our value)
 	if (mode_ == rhs_.mode_)
 	{
@@ -510,7 +518,9 @@ namespace
 				  {
 					  auto new_str = transcode<Char>(str);
 					  call_destructor(str);
-					  out = *initialize(storage_, mode_, MUU_MOVE(new_str));
+					  mode_ = {};
+					  if (auto s = initialize(storage_, mode_, MUU_MOVE(new_str)))
+						  out = *s;
 				  }
 			  });
 		return out;
@@ -654,6 +664,9 @@ void string_param::move_into_char8_string(void* str) noexcept
 
 string_param& string_param::trim() & noexcept
 {
+	if (!mode_)
+		return *this;
+
 	visit(storage_,
 		  mode_,
 		  [&](auto& str) noexcept
-- 
2.43.0

