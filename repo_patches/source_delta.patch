From e9a400572504299e7fe859c7ccc9d0fcb9131e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 01/38] fix: do not classify negative character values as
 digits

is_digit relied on an XOR against '0' being less than 10, which holds for every negative value of a
signed character type (e.g. bytes of 0x80 and above for char).
---
 fly/types/string/detail/classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/detail/classifier.hpp b/fly/types/string/detail/classifier.hpp
index 0f444fc..84adce0 100644
--- a/fly/types/string/detail/classifier.hpp
+++ b/fly/types/string/detail/classifier.hpp
@@ -169,6 +169,7 @@ private:
 
     static constexpr auto const s_null_terminator = FLY_CHR(CharType, '\0');
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
+    static constexpr auto const s_nine = FLY_CHR(CharType, '9');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_z = FLY_CHR(CharType, 'Z');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -260,7 +261,7 @@ constexpr CharType BasicClassifier<CharType>::to_lower(CharType ch)
 template <fly::StandardCharacter CharType>
 constexpr bool BasicClassifier<CharType>::is_digit(CharType ch)
 {
-    return (ch ^ s_zero) < 10;
+    return (ch >= s_zero) && (ch <= s_nine);
 }
 
 //==================================================================================================
-- 
2.43.0


From cda1de4ed3cba9f818ee3f723178684c49b5f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 02/38] fix: do not search replaced text again in replace_all

Restarting the search from the beginning never terminates when the replacement contains the search
string, and rewrites text which was not part of the original string.
---
 fly/types/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 2da7973..52393ba 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -573,7 +573,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, c
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), 1, replace);
-        index = target.find(search);
+        index = target.find(search, index + 1);
     }
 }
 
@@ -586,7 +586,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, v
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), replace);
-        index = target.find(search);
+        index = target.find(search, index + replace.size());
     }
 }
 
-- 
2.43.0


From 2e6d4ddc9398955be4525089b8529645dd47ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 03/38] fix: match wildcard segments in order and without
 overlap in wildcard_match

The prefix, the suffix and the segments in between were searched for independently, so a segment
could match text already matched by another ("a*a" matched "a"), and a pattern without any wildcard
matched any string which merely starts and ends with it.
---
 fly/types/string/string.hpp | 44 +++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 52393ba..b75d46f 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -602,34 +602,44 @@ template <StandardCharacter CharType>
 bool BasicString<CharType>::wildcard_match(view_type source, view_type search)
 {
     static constexpr char_type s_wildcard = '*';
-    bool result = !search.empty();
 
-    std::vector<string_type> const segments = split(search, s_wildcard);
-    size_type index = 0;
+    if (search.empty())
+    {
+        return false;
+    }
+
+    size_type source_index = 0;
+    size_type search_index = 0;
 
-    if (!segments.empty())
+    // The position of the last wildcard, and the position in the source string to resume from if the
+    // characters following that wildcard do not match.
+    size_type wildcard_index = view_type::npos;
+    size_type resume_index = 0;
+
+    while (source_index < source.size())
     {
-        if (result && (search.front() != s_wildcard))
+        if ((search_index < search.size()) && (search[search_index] == s_wildcard))
         {
-            result = source.starts_with(segments.front());
+            wildcard_index = search_index++;
+            resume_index = source_index;
         }
-        if (result && (search.back() != s_wildcard))
+        else if ((search_index < search.size()) && (search[search_index] == source[source_index]))
         {
-            result = source.ends_with(segments.back());
+            ++search_index;
+            ++source_index;
         }
-
-        for (auto it = segments.begin(); result && (it != segments.end()); ++it)
+        else if (wildcard_index != view_type::npos)
         {
-            index = source.find(*it, index);
-
-            if (index == string_type::npos)
-            {
-                result = false;
-            }
+            search_index = wildcard_index + 1;
+            source_index = ++resume_index;
+        }
+        else
+        {
+            return false;
         }
     }
 
-    return result;
+    return search.find_first_not_of(s_wildcard, search_index) == view_type::npos;
 }
 
 //==================================================================================================
-- 
2.43.0


From 259bef1675b2504f3a8e9486f98f58a5cea8ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 04/38] fix: format characters above 0x7f of the format
 string's own character type

Characters of signed character types were treated as negative integers, and dropped, so e.g. joining
with or formatting such a character lost it.
---
 fly/types/string/formatters.hpp | 40 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 882fa6d..abc3c0c 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -202,6 +202,16 @@ struct Formatter<T, CharType> : public detail::BasicFormatSpecifier<CharType>
     template <typename FormatContext>
     inline void format(T value, FormatContext &context)
     {
+        if constexpr (fly::SameAs<T, CharType>)
+        {
+            // Every value of the format string's own character type may be presented as a character.
+            if (m_type == FormatSpecifier::Type::Character)
+            {
+                format_as_character(value, context);
+                return;
+            }
+        }
+
         if constexpr (std::is_signed_v<T>)
         {
             using U = std::make_unsigned_t<std::remove_cvref_t<T>>;
@@ -238,7 +248,11 @@ private:
     {
         if (m_type == FormatSpecifier::Type::Character)
         {
-            format_as_character(value, is_negative, context);
+            if (!is_negative && (value <= static_cast<U>(std::numeric_limits<CharType>::max())))
+            {
+                format_as_character(static_cast<CharType>(value), context);
+            }
+
             return;
         }
 
@@ -348,26 +362,16 @@ private:
     }
 
     /**
-     * Format a single replacement field as a character with the provided unsigned, non-boolean
-     * integral value.
-     *
-     * If the value does not fit into the bounds of CharType, it is dropped.
+     * Format a single replacement field as a character with the provided character value.
      *
-     * @tparam U The type of the value to format.
      * @tparam FormatContext The type of the formatting context.
      *
      * @param value The value to format.
-     * @param is_negative Whether the original value was negative.
      * @param context The context holding the formatting state.
      */
-    template <fly::UnsignedIntegral U, typename FormatContext>
-    void format_as_character(U value, bool is_negative, FormatContext &context)
+    template <typename FormatContext>
+    void format_as_character(CharType value, FormatContext &context)
     {
-        if (is_negative || (value > static_cast<U>(std::numeric_limits<CharType>::max())))
-        {
-            return;
-        }
-
         std::size_t const width = FormatSpecifier::width(context, 0);
         std::size_t const padding_size = width > 1 ? width - 1 : 0;
         auto const padding_char = m_fill.value_or(s_space);
@@ -382,13 +386,13 @@ private:
         switch (m_alignment)
         {
             case FormatSpecifier::Alignment::Left:
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 append_padding(padding_size);
                 break;
 
             case FormatSpecifier::Alignment::Right:
                 append_padding(padding_size);
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 break;
 
             case FormatSpecifier::Alignment::Center:
@@ -398,14 +402,14 @@ private:
                     (padding_size % 2 == 0) ? left_padding : left_padding + 1;
 
                 append_padding(left_padding);
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 append_padding(right_padding);
                 break;
             }
 
             case FormatSpecifier::Alignment::Default:
                 append_padding(padding_size);
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 break;
         }
     }
-- 
2.43.0


From d77107eee4011cd2e2fee53f8644832c1a0393de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 05/38] fix: reject numbers which do not fit in the lexer's
 integer type

---
 fly/types/string/lexer.hpp | 60 ++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index f99464d..fc1bed4 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -6,6 +6,7 @@
 #include "fly/types/string/literals.hpp"
 
 #include <cstdint>
+#include <limits>
 #include <optional>
 
 namespace fly {
@@ -107,6 +108,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a decimal digit. Convert the retrieved characters to an unsigned number.
      *
+     * If the number is too large to be represented, no characters are consumed.
+     *
      * @return If consumed, the parsed decimal number. Otherwise, an uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_number();
@@ -116,6 +119,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a hexadecimal digit. Convert the retrieved characters to an unsigned number.
      *
+     * If the number is too large to be represented, no characters are consumed.
+     *
      * @return If consumed, the parsed hexadecimal number. Otherwise, an uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_hex_number();
@@ -135,6 +140,18 @@ private:
     template <typename Condition>
     constexpr std::optional<CharType> consume_if(Condition condition);
 
+    /**
+     * Append a digit to an unsigned number, if the result may be represented.
+     *
+     * @param number The number to modify.
+     * @param base The base of the number.
+     * @param digit The value of the digit to append.
+     *
+     * @return Whether the digit was appended.
+     */
+    static constexpr bool
+    append_digit(std::uintmax_t &number, std::uintmax_t base, std::uintmax_t digit);
+
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -226,6 +243,8 @@ constexpr bool BasicLexer<CharType>::consume_if(CharType ch)
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 {
+    std::size_t const start = m_index;
+
     bool parsed_number = false;
     std::uintmax_t number = 0;
 
@@ -233,8 +252,11 @@ constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
     {
         parsed_number = true;
 
-        number *= 10;
-        number += static_cast<std::uintmax_t>(ch.value() - s_zero);
+        if (!append_digit(number, 10, static_cast<std::uintmax_t>(ch.value() - s_zero)))
+        {
+            m_index = start;
+            return std::nullopt;
+        }
     }
 
     return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
@@ -244,31 +266,57 @@ constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number()
 {
+    std::size_t const start = m_index;
+
     bool parsed_number = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_x_digit))
     {
         parsed_number = true;
-        number *= 16;
+        std::uintmax_t digit = 0;
 
         if ((ch.value() >= s_upper_a) && (ch.value() <= s_upper_f))
         {
-            number += static_cast<std::uintmax_t>(ch.value()) - s_upper_a + 0xA;
+            digit = static_cast<std::uintmax_t>(ch.value()) - s_upper_a + 0xA;
         }
         else if ((ch.value() >= s_lower_a) && (ch.value() <= s_lower_f))
         {
-            number += static_cast<std::uintmax_t>(ch.value()) - s_lower_a + 0xa;
+            digit = static_cast<std::uintmax_t>(ch.value()) - s_lower_a + 0xa;
         }
         else
         {
-            number += static_cast<std::uintmax_t>(ch.value()) - s_zero;
+            digit = static_cast<std::uintmax_t>(ch.value()) - s_zero;
+        }
+
+        if (!append_digit(number, 16, digit))
+        {
+            m_index = start;
+            return std::nullopt;
         }
     }
 
     return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
 }
 
+//==================================================================================================
+template <StandardCharacter CharType>
+constexpr bool BasicLexer<CharType>::append_digit(
+    std::uintmax_t &number,
+    std::uintmax_t base,
+    std::uintmax_t digit)
+{
+    constexpr auto s_max = std::numeric_limits<std::uintmax_t>::max();
+
+    if ((number > (s_max / base)) || ((number * base) > (s_max - digit)))
+    {
+        return false;
+    }
+
+    number = (number * base) + digit;
+    return true;
+}
+
 //==================================================================================================
 template <StandardCharacter CharType>
 template <typename Condition>
-- 
2.43.0


From 1f1889a94eeaa7f0862efa1f5be7108482b1bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 06/38] fix: accept only well-formed groups when parsing IPv6
 addresses

---
 fly/net/ipv6_address.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/fly/net/ipv6_address.hpp b/fly/net/ipv6_address.hpp
index 62d97c6..c1770bf 100644
--- a/fly/net/ipv6_address.hpp
+++ b/fly/net/ipv6_address.hpp
@@ -8,7 +8,6 @@
 #include <array>
 #include <compare>
 #include <cstdint>
-#include <limits>
 #include <optional>
 #include <string>
 
@@ -153,8 +152,7 @@ constexpr IPv6Address IPv6Address::in_addr_loopback()
 //==================================================================================================
 constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view address)
 {
-    constexpr auto const s_max16 =
-        static_cast<std::uint64_t>(std::numeric_limits<std::uint16_t>::max());
+    constexpr std::size_t const s_max_segment_length = 4;
     constexpr auto const s_colon = ':';
 
     fly::Lexer lexer(std::move(address));
@@ -175,20 +173,35 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
                 }
 
                 index_after_short_form = index;
+
+                if (!lexer.peek())
+                {
+                    break;
+                }
+            }
+            else if (index == 0)
+            {
+                return std::nullopt;
             }
         }
-        else if (auto const segment = lexer.consume_hex_number(); segment && (*segment <= s_max16))
+        else if (index != 0)
         {
-            parts[index++] = static_cast<address_type::value_type>((*segment >> 8) & 0xff);
-            parts[index++] = static_cast<address_type::value_type>(*segment & 0xff);
+            return std::nullopt;
         }
-        else
+
+        auto const segment_start = lexer.position();
+        auto const segment = lexer.consume_hex_number();
+
+        if (!segment || ((lexer.position() - segment_start) > s_max_segment_length))
         {
             return std::nullopt;
         }
+
+        parts[index++] = static_cast<address_type::value_type>((*segment >> 8) & 0xff);
+        parts[index++] = static_cast<address_type::value_type>(*segment & 0xff);
     } while (lexer.peek() && (index < s_address_size));
 
-    if (lexer.peek() || ((index != s_address_size) && !index_after_short_form))
+    if (lexer.peek() || ((index == s_address_size) == index_after_short_form.has_value()))
     {
         return std::nullopt;
     }
-- 
2.43.0


From e1a4820fa812f0b0dbd7af2ce778ddd0a46a3514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 07/38] fix: write exactly the requested bits to a bit stream

Writing 64 bits while the byte buffer was full shifted by 64 bits, and bits
above the requested width were or-ed into the byte buffer.
---
 fly/types/bit_stream/bit_stream_writer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 26abf10..bb65da7 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -100,6 +100,14 @@ private:
 template <detail::BitStreamInteger DataType>
 void BitStreamWriter::write_bits(DataType bits, byte_type size)
 {
+    if (size == 0)
+    {
+        return;
+    }
+
+    // Only the least-significant bits are to be written, ignore any other bits.
+    buffer_type data = static_cast<buffer_type>(bits) & bit_mask<buffer_type>(size);
+
     // If there are more bits to write than are available in the byte buffer, break the bits into
     // two chunks.
     if (size > m_position)
-- 
2.43.0


From 5c929d3ecf0583f91f583c15a6364334c83c80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 08/38] fix: do not shift by the size of the value when there
 are no bits to peek

---
 fly/types/bit_stream/bit_stream_reader.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 048961b..1880f9b 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -217,6 +217,13 @@ byte_type BitStreamReader::peek_bits(DataType &bits, byte_type size)
         lshift -= size;
     }
 
+    // It is undefined behavior to bit-shift by the size of the value being shifted, which could
+    // otherwise occur below when there are no more bits to peek.
+    if (size == 0)
+    {
+        return peeked;
+    }
+
     byte_type const rshift = m_position - peeked - size;
     DataType const buffer = static_cast<DataType>(m_buffer >> rshift);
 
-- 
2.43.0


From 3cb0b9626dcc242f20c1bff870e11c9fccfce56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 09/38] fix: report failure when a bit stream's output stream
 cannot be written

---
 fly/types/bit_stream/bit_stream_writer.cpp |  5 ++++-
 fly/types/bit_stream/bit_stream_writer.hpp | 17 +++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.cpp b/fly/types/bit_stream/bit_stream_writer.cpp
index 9482d70..eca7bb9 100644
--- a/fly/types/bit_stream/bit_stream_writer.cpp
+++ b/fly/types/bit_stream/bit_stream_writer.cpp
@@ -48,7 +48,10 @@ bool BitStreamWriter::finish()
 //==================================================================================================
 void BitStreamWriter::flush_header(byte_type remainder)
 {
-    m_stream_buffer->pubseekpos(0);
+    if (m_stream_buffer->pubseekpos(0) == std::streampos(std::streamoff(-1)))
+    {
+        m_stream.setstate(std::ios::failbit);
+    }
 
     byte_type const header =
         (detail::s_magic << detail::s_magic_shift) | (remainder << detail::s_remainder_shift);
diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index bb65da7..51f6076 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -116,17 +116,21 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
 
         // Fill the remainder of the byte buffer with as many bits as are available, and flush it
         // onto the stream.
-        m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        //
+        // It is undefined behavior to bit-shift by the size of the value being shifted, i.e. when
+        // the byte buffer is full and 64 bits are to be written. Because rshift is at least 1 here,
+        // the right-shift can be broken into two operations in order to avoid that behavior.
+        m_buffer |= (data >> (rshift - 1)) >> 1;
         flush_buffer();
 
         // Then update the input bits to retain only those bits that have not been written yet.
-        bits &= bit_mask<DataType>(rshift);
+        data &= bit_mask<buffer_type>(rshift);
         size = rshift;
     }
 
     byte_type const lshift = m_position - size;
 
-    m_buffer |= static_cast<buffer_type>(bits) << lshift;
+    m_buffer |= data << lshift;
     m_position = lshift;
 }
 
@@ -138,9 +142,14 @@ void BitStreamWriter::flush(DataType const &buffer, byte_type bytes)
     {
         DataType const data = endian_swap_if_non_native<std::endian::big>(buffer);
 
-        m_stream_buffer->sputn(
+        std::streamsize const bytes_written = m_stream_buffer->sputn(
             reinterpret_cast<std::ios::char_type const *>(&data),
             static_cast<std::streamsize>(bytes));
+
+        if (bytes_written != static_cast<std::streamsize>(bytes))
+        {
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 }
 
-- 
2.43.0


From fd0d08759c8b41ba74c9bfb207414775b9fae9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 10/38] fix: do not index the Base64 table with negative
 character values

---
 fly/coders/base64/base64_coder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 9dad34d..7ebbfe7 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -83,10 +83,10 @@ namespace {
     std::conditional_t<AllowPadding::value, std::size_t, bool>
     decode_chunk(std::ios::char_type const *encoded, std::ios::char_type *decoded)
     {
-        auto const code0 = s_base64_codes[static_cast<std::size_t>(encoded[0])];
-        auto const code1 = s_base64_codes[static_cast<std::size_t>(encoded[1])];
-        auto const code2 = s_base64_codes[static_cast<std::size_t>(encoded[2])];
-        auto const code3 = s_base64_codes[static_cast<std::size_t>(encoded[3])];
+        auto const code0 = s_base64_codes[static_cast<unsigned char>(encoded[0])];
+        auto const code1 = s_base64_codes[static_cast<unsigned char>(encoded[1])];
+        auto const code2 = s_base64_codes[static_cast<unsigned char>(encoded[2])];
+        auto const code3 = s_base64_codes[static_cast<unsigned char>(encoded[3])];
 
         // All 6 bits of the first code, first 2 bits of the second code.
         decoded[0] = static_cast<std::ios::char_type>((code0 << 2) | ((code1 >> 4) & 0x03));
@@ -147,7 +147,7 @@ bool Base64Coder::encode_internal(std::istream &decoded, std::ostream &encoded)
         if (auto const remainder = bytes % s_decoded_chunk_size; remainder > 0)
         {
             auto const end = static_cast<std::size_t>(decoding - m_decoded.data()) + remainder;
-            ::memset(m_decoded.data() + end, '\0', end);
+            ::memset(m_decoded.data() + end, '\0', s_decoded_chunk_size - remainder);
 
             encode_chunk(decoding, m_encoded.data());
 
-- 
2.43.0


From a6422512660b9565f7cbf28f2bca92e6532629e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 11/38] fix: decode padding at the end of the Base64 coder's
 buffer

---
 fly/coders/base64/base64_coder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 7ebbfe7..beef72d 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -167,6 +167,13 @@ bool Base64Coder::decode_internal(std::istream &encoded, std::ostream &decoded)
         encoded.read(m_encoded.data(), static_cast<std::streamsize>(m_encoded.size()));
         auto const bytes = static_cast<std::size_t>(encoded.gcount());
 
+        // If the encoded stream ends exactly at the end of the buffer, this was the last read. Peek
+        // at the stream to set its end-of-file bit in that case.
+        if (encoded)
+        {
+            encoded.peek();
+        }
+
         if ((bytes % s_encoded_chunk_size) != 0)
         {
             decoded.setstate(std::ios::failbit);
-- 
2.43.0


From 26a47652e5349c609b6dd2a596354d439aa1ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 12/38] fix: reject impossible Huffman codes and truncated
 symbols

Codes of length zero, more codes than their lengths can represent, prefixes
which are not a code and a stream ending within a symbol were accepted, reading
and writing beyond the prefix table and inventing symbols.
---
 fly/coders/huffman/huffman_decoder.cpp | 35 +++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 998d32c..a480997 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -167,6 +167,13 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
         }
     }
 
+    // A code must be at least one bit long.
+    if (counts[0] != 0)
+    {
+        LOGW("Decoded {} codes of length 0 bits", counts[0]);
+        return false;
+    }
+
     // Decode the symbols.
     for (length_type length = 0; length < counts_size; ++length)
     {
@@ -193,6 +200,13 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
                 code = (last.m_code + 1) << shift;
             }
 
+            // There cannot be more codes than their lengths can represent.
+            if ((code >> length) != 0)
+            {
+                LOGW("Exceeded maximum number of codes of length {} bits", length);
+                return false;
+            }
+
             if (m_huffman_codes_size == m_huffman_codes.size())
             {
                 LOGW("Exceeded maximum number of codes: {}", m_huffman_codes_size);
@@ -211,6 +225,12 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
 //==================================================================================================
 void HuffmanDecoder::convert_to_prefix_table(length_type max_code_length)
 {
+    // Prefixes which are not part of any code have a length of zero.
+    for (std::uint32_t i = 0; i < (1_u32 << max_code_length); ++i)
+    {
+        m_prefix_table[i] = HuffmanCode();
+    }
+
     for (std::uint16_t i = 0; i < m_huffman_codes_size; ++i)
     {
         HuffmanCode const code = std::move(m_huffman_codes[i]);
@@ -235,10 +255,23 @@ bool HuffmanDecoder::decode_symbols(
     std::uint32_t bytes = 0;
     code_type prefix;
 
-    while ((bytes < chunk_size) && (encoded.peek_bits(prefix, max_code_length) != 0))
+    while (bytes < chunk_size)
     {
+        byte_type const bits = encoded.peek_bits(prefix, max_code_length);
+
+        if (bits == 0)
+        {
+            break;
+        }
+
         HuffmanCode const &code = m_prefix_table[prefix];
 
+        if ((code.m_length == 0) || (code.m_length > bits))
+        {
+            LOGW("Decoded invalid prefix {}", prefix);
+            return false;
+        }
+
         m_chunk_buffer[bytes++] = code.m_symbol;
         encoded.discard_bits(code.m_length);
     }
-- 
2.43.0


From a622bbdab918b66fe46cd24c8ce41db155017299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 13/38] fix: refuse Huffman configurations which cannot encode
 the input

A chunk size of zero dropped the input, and a maximum code length too small for
the number of symbols produced a stream which decodes to different contents.
---
 fly/coders/huffman/huffman_encoder.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index 7b78b07..8e16409 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -36,6 +36,16 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         LOGW("Maximum Huffman code length {} is too large for code_type", m_max_code_length);
         return false;
     }
+    else if (m_max_code_length == 0)
+    {
+        LOGW("Maximum Huffman code length must be at least 1");
+        return false;
+    }
+    else if (m_chunk_size == 0)
+    {
+        LOGW("Huffman chunk size must be at least 1 KB");
+        return false;
+    }
 
     encode_header(encoded);
 
@@ -47,6 +57,15 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         create_tree(chunk_size);
         create_codes();
 
+        if (m_huffman_codes_size > (1_u32 << m_max_code_length))
+        {
+            LOGW(
+                "Maximum Huffman code length {} is too small for {} symbols",
+                m_max_code_length,
+                m_huffman_codes_size);
+            return false;
+        }
+
         encode_codes(encoded);
         encode_symbols(chunk_size, encoded);
     }
-- 
2.43.0


From de9f9cec008f2d545212de719a1bfc3ccb60f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 14/38] fix: do not treat vertical tabs as JSON whitespace

---
 fly/parser/json_parser.cpp | 1 -
 fly/parser/json_parser.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index eb645d1..8f6224f 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -468,7 +468,6 @@ bool JsonParser::is_whitespace(Token token) const
     {
         case Token::Tab:
         case Token::NewLine:
-        case Token::VerticalTab:
         case Token::CarriageReturn:
         case Token::Space:
             return true;
diff --git a/fly/parser/json_parser.hpp b/fly/parser/json_parser.hpp
index 5bb80a2..984666c 100644
--- a/fly/parser/json_parser.hpp
+++ b/fly/parser/json_parser.hpp
@@ -51,7 +51,6 @@ public:
 
         Tab = 0x09, // \t
         NewLine = 0x0a, // \n
-        VerticalTab = 0x0b, // \v
         CarriageReturn = 0x0d, // \r
         Space = 0x20, // <space>
 
-- 
2.43.0


From 749bc661220a5256a2d8993ae2f430549ca745bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 15/38] fix: reject malformed comments after a comma in JSON
 arrays and objects

---
 fly/parser/json_parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 8f6224f..a839773 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -287,18 +287,16 @@ JsonParser::ParseState JsonParser::consume_comma(Token end_token)
     {
         return ParseState::Invalid;
     }
-    else if (state_for_object_or_array(end_token) == ParseState::StopParsing)
-    {
-        if (m_allow_trailing_comma)
-        {
-            return ParseState::StopParsing;
-        }
 
+    ParseState const state = state_for_object_or_array(end_token);
+
+    if ((state == ParseState::StopParsing) && !m_allow_trailing_comma)
+    {
         JLOG("Found trailing comma, but Features::AllowTrailingComma is not enabled");
         return ParseState::Invalid;
     }
 
-    return ParseState::KeepParsing;
+    return state;
 }
 
 //==================================================================================================
-- 
2.43.0


From ac14aa6d48cbe81e64457e021c18856a9e23577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 16/38] fix: allow comments between a JSON object's key and
 colon

---
 fly/parser/json_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index a839773..79b1de8 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -269,7 +269,10 @@ std::optional<fly::Json> JsonParser::parse_value()
 //==================================================================================================
 JsonParser::ParseState JsonParser::consume_token(Token token)
 {
-    consume_whitespace();
+    if (consume_whitespace_and_comments() == ParseState::Invalid)
+    {
+        return ParseState::Invalid;
+    }
 
     if (Token const parsed = get<Token>(); parsed != token)
     {
-- 
2.43.0


From 5427aa5ebcb6b8064e2bf4824f324aafdbf744d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 17/38] fix: compare JSON integers of mixed signedness by
 value, and order consistently with equality

---
 fly/types/json/json.cpp | 8 ++++----
 fly/types/json/json.hpp | 8 +++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 103bf46..bf7f1b4 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -747,7 +747,7 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 == static_cast<S1>(value2);
+            return std::cmp_equal(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
@@ -789,7 +789,7 @@ bool operator<(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 < static_cast<S1>(value2);
+            return std::cmp_less(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
@@ -807,7 +807,7 @@ bool operator<(Json::const_reference json1, Json::const_reference json2)
 //==================================================================================================
 bool operator<=(Json::const_reference json1, Json::const_reference json2)
 {
-    return !(json2 < json1);
+    return (json1 == json2) || (json1 < json2);
 }
 
 //==================================================================================================
@@ -819,7 +819,7 @@ bool operator>(Json::const_reference json1, Json::const_reference json2)
 //==================================================================================================
 bool operator>=(Json::const_reference json1, Json::const_reference json2)
 {
-    return !(json1 < json2);
+    return (json1 == json2) || (json1 > json2);
 }
 
 //==================================================================================================
diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 82e63de..87ce720 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -1370,8 +1370,7 @@ public:
      *    unsigned, or float) and have approximately the same value after converting both types to
      *    floating-point. Approximation is determined by comparing the difference between the two
      *    values to the machine epsilon.
-     * 2. The two Json instances are an integer type (signed or unsigned) and have the same value
-     *    after converting the second Json value to the same type as the first Json value.
+     * 2. The two Json instances are an integer type (signed or unsigned) and have the same value.
      * 3. The two Json instances are of the same type and have the same value.
      *
      * @return True if the two Json instances are equal.
@@ -1393,9 +1392,8 @@ public:
      * 1. One of the two JSON types are floating-point, the other is a numeric type (signed,
      *    unsigned, or float) and the default less-than operator returns true after converting both
      *    types to floating-point.
-     * 2. The two Json instances are an integer type (signed or unsigned) and have the default
-     *    less-than operator returns true after converting the second Json value to the same type as
-     *    the first Json value.
+     * 2. The two Json instances are an integer type (signed or unsigned) and the value of the first
+     *    Json instance is less-than the value of the second Json instance.
      * 3. The two Json instances are of the same type and the default less-than operator returns
      *    true.
      * 4. The two Json instances are of incompatible types and the type of the first Json instance
-- 
2.43.0


From 8aca3f98170a9140a0271941abc33d7bde8023a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 18/38] fix: infinite JSON numbers are equal to themselves

---
 fly/types/json/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index bf7f1b4..eab241d 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -743,7 +743,8 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
             auto const fvalue1 = static_cast<json_floating_point_type>(value1);
             auto const fvalue2 = static_cast<json_floating_point_type>(value2);
 
-            return std::abs(fvalue1 - fvalue2) <= epsilon;
+            // Infinite values do not have a meaningful difference.
+            return (fvalue1 == fvalue2) || (std::abs(fvalue1 - fvalue2) <= epsilon);
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-- 
2.43.0


From e003991e4f64c0d5bb0441b895c718c02a9bb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 19/38] fix: leave a null JSON value unchanged when merging a
 value which is not an object

---
 fly/types/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index eab241d..da5d1e1 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -713,8 +713,8 @@ void Json::swap(reference json)
 //==================================================================================================
 void Json::merge(fly::Json &other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(other_storage);
 }
@@ -722,8 +722,8 @@ void Json::merge(fly::Json &other)
 //==================================================================================================
 void Json::merge(fly::Json &&other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(std::move(other_storage));
 }
-- 
2.43.0


From 6397edfb80bd6111bb5c7af560541ce4e7a1a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:19 +0000
Subject: [PATCH 20/38] fix: separate INI names and values at the first
 assignment operator only

---
 fly/parser/ini_parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index a7b4c5a..409dd2a 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -3,7 +3,7 @@
 #include "fly/logger/logger.hpp"
 #include "fly/types/string/string.hpp"
 
-#include <vector>
+#include <utility>
 
 namespace fly::parser {
 
@@ -120,17 +120,22 @@ std::optional<std::string> IniParser::on_section(std::string &section)
 std::optional<std::pair<std::string, std::string>>
 IniParser::on_name_value_pair(std::string const &name_value)
 {
-    static constexpr std::uint32_t s_size = 2;
+    // Only the first assignment operator separates the name from the value. Any further assignment
+    // operators belong to the value.
+    auto const separator = name_value.find('=');
+    std::string name, value;
 
-    std::vector<std::string> pair = fly::String::split(name_value, '=', s_size);
-
-    if (pair.size() == s_size)
+    if (separator != std::string::npos)
     {
-        std::string name(std::move(pair[0])), value(std::move(pair[1]));
+        name = name_value.substr(0, separator);
+        value = name_value.substr(separator + 1);
 
         fly::String::trim(name);
         fly::String::trim(value);
+    }
 
+    if (!name.empty() && !value.empty())
+    {
         if ((trim_value(name, '\'') != TrimResult::Untrimmed) ||
             (trim_value(name, '\"') != TrimResult::Untrimmed))
         {
-- 
2.43.0


From 2249b5e813b4ad8c328db401ea979a48f6e1ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:32 +0000
Subject: [PATCH 21/38] fix: treat a lone quote in an INI file as imbalanced

---
 fly/parser/ini_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index 409dd2a..05a037a 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -170,7 +170,7 @@ IniParser::TrimResult IniParser::trim_value(std::string &str, char start, char e
     bool starts_with_char = str.starts_with(start);
     bool ends_with_char = str.ends_with(end);
 
-    if (starts_with_char && ends_with_char)
+    if (starts_with_char && ends_with_char && (str.size() > 1))
     {
         str = str.substr(1, str.size() - 2);
         return TrimResult::Trimmed;
-- 
2.43.0


From 2fe1043fc7bb7e31654379fe87a357dfef4a4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 22/38] fix: keep a live logger registered when another of the
 same name is destroyed

---
 fly/logger/detail/registry.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index 85ceb7f..26f349a 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -83,7 +83,13 @@ void Registry::unregister_logger(std::string const &name)
     }
 
     std::lock_guard<std::mutex> lock(m_registry_mutex);
-    m_registry.erase(name);
+
+    // The logger being destroyed may not be the one registered under its name, for example if its
+    // registration was refused because another logger is already registered under that name.
+    if (auto it = m_registry.find(name); (it != m_registry.end()) && it->second.expired())
+    {
+        m_registry.erase(it);
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From 643e880286deac994758ff13cf305b5b3c48748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:47 +0000
Subject: [PATCH 23/38] fix: number the records of a logger shared by threads
 without a data race

---
 fly/logger/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/logger/logger.hpp b/fly/logger/logger.hpp
index 49d28d3..58e205d 100644
--- a/fly/logger/logger.hpp
+++ b/fly/logger/logger.hpp
@@ -430,7 +430,7 @@ private:
     std::atomic_bool m_last_task_failed {true};
 
     std::chrono::steady_clock::time_point const m_start_time;
-    std::uintmax_t m_index {0};
+    std::atomic_uintmax_t m_index {0};
 };
 
 //==================================================================================================
-- 
2.43.0


From 61183e6ce8e3b29c101942c46d629faad0be6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 24/38] fix: let a new logger take the name of one that is gone

---
 fly/logger/detail/registry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index 26f349a..0fe3c7c 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -65,7 +65,9 @@ bool Registry::register_logger(std::shared_ptr<fly::logger::Logger> logger)
 {
     std::lock_guard<std::mutex> lock(m_registry_mutex);
 
-    if (m_registry.find(logger->name()) != m_registry.end())
+    // A logger whose name is retained after it was destroyed does not occupy that name.
+    if (auto it = m_registry.find(logger->name());
+        (it != m_registry.end()) && !(it->second.expired()))
     {
         return false;
     }
-- 
2.43.0


From d4823b0d0a356440021e643e1ffcaaa05785b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 25/38] fix: report a log record that could not be written as
 failed

---
 fly/logger/detail/file_sink.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index b518296..a289025 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -36,6 +36,12 @@ bool FileSink::stream(fly::logger::Log &&log)
     if (m_log_stream.good())
     {
         m_log_stream << log << std::flush;
+
+        if (!m_log_stream.good())
+        {
+            return false;
+        }
+
         std::error_code error;
 
         if (std::filesystem::file_size(m_log_file, error) > m_logger_config->max_log_file_size())
-- 
2.43.0


From 1e5f490e9185abdf18c81126bbb1e58ffddd7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 26/38] fix: keep the last system CPU usage when no time has
 passed between readings

---
 fly/system/nix/system_monitor_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index a9ccbe8..bbea13d 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -93,7 +93,10 @@ void SystemMonitorImpl::update_system_cpu_usage()
             (system - m_prev_system_system_time);
         auto const total = active + (idle - m_prev_system_idle_time);
 
-        m_system_cpu_usage.store(100.0 * active / total);
+        if (total > 0)
+        {
+            m_system_cpu_usage.store(100.0 * active / total);
+        }
     }
 
     m_prev_system_user_time = user;
-- 
2.43.0


From d31b0ba1ae9af1ed2b16ee1279a6083266153be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:49 +0000
Subject: [PATCH 27/38] fix: release the watches of a path monitor before
 closing its descriptor

---
 fly/path/nix/path_monitor_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 571bf93..080ba5c 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -38,6 +38,9 @@ PathMonitorImpl::~PathMonitorImpl()
 {
     if (m_monitor_descriptor != -1)
     {
+        // The watches must be released before the descriptor they belong to.
+        remove_all_paths();
+
         ::close(m_monitor_descriptor);
         m_monitor_descriptor = -1;
     }
-- 
2.43.0


From 51e167b09c8ad31b102179bf68d43e327c8c9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:49 +0000
Subject: [PATCH 28/38] fix: keep what is registered in a directory while its
 last file is being removed

---
 fly/path/path_monitor.cpp | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index 94dd82c..e53d5be 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -131,33 +131,34 @@ bool PathMonitor::add_file(std::filesystem::path const &file, PathEventCallback
 //==================================================================================================
 bool PathMonitor::remove_file(std::filesystem::path const &file)
 {
-    bool prune_path = false;
-    {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        auto path_it = m_path_info.find(file.parent_path());
+    std::lock_guard<std::mutex> lock(m_mutex);
+    auto path_it = m_path_info.find(file.parent_path());
 
-        if (path_it == m_path_info.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (path_it == m_path_info.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        PathInfo *info = path_it->second.get();
-        auto file_it = info->m_file_handlers.find(file.filename());
+    PathInfo *info = path_it->second.get();
+    auto file_it = info->m_file_handlers.find(file.filename());
 
-        if (file_it == info->m_file_handlers.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (file_it == info->m_file_handlers.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        LOGD("Stopped monitoring {}", file);
-        info->m_file_handlers.erase(file_it);
+    LOGD("Stopped monitoring {}", file);
+    info->m_file_handlers.erase(file_it);
 
-        prune_path = info->m_file_handlers.empty() && !(info->m_path_handler);
+    if (info->m_file_handlers.empty() && !(info->m_path_handler))
+    {
+        LOGI("Removed monitor for {}", path_it->first);
+        m_path_info.erase(path_it);
     }
 
-    return prune_path ? remove_path(file.parent_path()) : true;
+    return true;
 }
 
 //==================================================================================================
-- 
2.43.0


From 1448b3d8a2fa5b5120e7e1fa72f7df1a17b0ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:44 +0000
Subject: [PATCH 29/38] fix: let a config manager be dropped while a change of
 its file is reported

---
 fly/config/config_manager.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index da40c90..c301f99 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -81,15 +81,16 @@ bool ConfigManager::start()
 
     std::weak_ptr<ConfigManager> weak_self = shared_from_this();
 
-    auto callback = [weak_self](std::filesystem::path, fly::path::PathEvent) {
-        if (auto self = weak_self.lock(); self)
-        {
-            auto task = [](std::shared_ptr<ConfigManager> nested_self) {
-                nested_self->update_config();
-            };
-
-            self->m_task_runner->post_task(FROM_HERE, std::move(weak_self), std::move(task));
-        }
+    // The callback runs under the path monitor's lock. It must not own the config manager, as the
+    // destructor of the config manager needs that lock.
+    auto callback = [weak_self, task_runner = m_task_runner](
+                        std::filesystem::path,
+                        fly::path::PathEvent) {
+        auto task = [](std::shared_ptr<ConfigManager> self) {
+            self->update_config();
+        };
+
+        task_runner->post_task(FROM_HERE, weak_self, std::move(task));
     };
 
     return m_monitor->add_file(m_path, callback);
-- 
2.43.0


From c6c944727d838deacfe2e5c93174bcbbf82fa1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:44 +0000
Subject: [PATCH 30/38] fix: fall back to default configuration values when the
 file holds no named sections

---
 fly/config/config_manager.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index c301f99..826e2bf 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -133,28 +133,26 @@ void ConfigManager::update_config()
         m_values = nullptr;
     }
 
-    if (m_values.is_object() || m_values.is_null())
-    {
-        for (auto it = m_configs.begin(); it != m_configs.end();)
-        {
-            std::shared_ptr<Config> config = it->second.lock();
-
-            if (config)
-            {
-                config->update(m_values[it->first]);
-                ++it;
-            }
-            else
-            {
-                it = m_configs.erase(it);
-            }
-        }
-    }
-    else
+    if (!m_values.is_object() && !m_values.is_null())
     {
         LOGW("Parsed non key-value pairs file, ignoring update");
         m_values = nullptr;
     }
+
+    for (auto it = m_configs.begin(); it != m_configs.end();)
+    {
+        std::shared_ptr<Config> config = it->second.lock();
+
+        if (config)
+        {
+            config->update(m_values[it->first]);
+            ++it;
+        }
+        else
+        {
+            it = m_configs.erase(it);
+        }
+    }
 }
 
 } // namespace fly::config
-- 
2.43.0


From 93935b865f86141feb7bbf072000d13bf8bf1793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 31/38] fix: fail the operations of a socket that is not open
 instead of polling it

---
 fly/net/socket/socket_service.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index a23f8f7..af08937 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -63,7 +63,15 @@ void SocketService::remove_socket(socket_type handle)
 //==================================================================================================
 void SocketService::notify_when_writable(socket_type handle, Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+    auto task = [handle, callback = std::move(callback)](
+                    std::shared_ptr<SocketService> self) mutable {
+        if (handle == detail::invalid_socket())
+        {
+            // A socket which is not open will never become ready. Let its operation fail instead.
+            std::invoke(std::move(callback));
+            return;
+        }
+
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
         self->m_write_requests.emplace_back(handle, std::move(callback));
 
@@ -80,7 +88,15 @@ void SocketService::notify_when_writable(socket_type handle, Notification &&call
 //==================================================================================================
 void SocketService::notify_when_readable(socket_type handle, Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+    auto task = [handle, callback = std::move(callback)](
+                    std::shared_ptr<SocketService> self) mutable {
+        if (handle == detail::invalid_socket())
+        {
+            // A socket which is not open will never become ready. Let its operation fail instead.
+            std::invoke(std::move(callback));
+            return;
+        }
+
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
         self->m_read_requests.emplace_back(handle, std::move(callback));
 
-- 
2.43.0


From bb706e1ad059c3f02760358ba08fc2d5247882ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 32/38] fix: poll sockets with handles beyond FD_SETSIZE

---
 .../socket/detail/nix/socket_operations.cpp   | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index 37c8ad2..f3025dd 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -13,7 +13,9 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <functional>
 #include <type_traits>
+#include <vector>
 
 namespace fly::net {
 
@@ -531,36 +533,43 @@ void select(
     std::set<fly::net::socket_type> &writing_handles,
     std::set<fly::net::socket_type> &reading_handles)
 {
-    fd_set write_set, read_set;
-    FD_ZERO(&write_set);
-    FD_ZERO(&read_set);
+    socket_type const max_handle = std::max(
+        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
+        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
+
+    // A single fd_set only has room for handles below FD_SETSIZE.
+    auto const set_count = static_cast<std::size_t>(std::max(max_handle, 0)) / FD_SETSIZE + 1;
+    std::vector<fd_set> write_sets(set_count);
+    std::vector<fd_set> read_sets(set_count);
 
     for (fly::net::socket_type handle : writing_handles)
     {
-        FD_SET(handle, &write_set);
+        FD_SET(handle % FD_SETSIZE, &write_sets[static_cast<std::size_t>(handle) / FD_SETSIZE]);
     }
     for (fly::net::socket_type handle : reading_handles)
     {
-        FD_SET(handle, &read_set);
+        FD_SET(handle % FD_SETSIZE, &read_sets[static_cast<std::size_t>(handle) / FD_SETSIZE]);
     }
 
-    socket_type const max_handle = std::max(
-        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
-        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
-
     suseconds_t const usec = static_cast<suseconds_t>(timeout.count());
     timeval tv {0, usec};
 
-    int const status = ::select(max_handle + 1, &read_set, &write_set, nullptr, &tv);
+    int const status =
+        ::select(max_handle + 1, read_sets.data(), write_sets.data(), nullptr, &tv);
 
     if (status > 0)
     {
-        auto is_not_set = [](fd_set *set, socket_type handle) {
-            return !FD_ISSET(handle, set);
+        auto is_not_set = [](std::vector<fd_set> &sets, socket_type handle) {
+            auto const index = static_cast<std::size_t>(handle) / FD_SETSIZE;
+            return !FD_ISSET(handle % FD_SETSIZE, &sets[index]);
         };
 
-        std::erase_if(writing_handles, std::bind(is_not_set, &write_set, std::placeholders::_1));
-        std::erase_if(reading_handles, std::bind(is_not_set, &read_set, std::placeholders::_1));
+        std::erase_if(
+            writing_handles,
+            std::bind(is_not_set, std::ref(write_sets), std::placeholders::_1));
+        std::erase_if(
+            reading_handles,
+            std::bind(is_not_set, std::ref(read_sets), std::placeholders::_1));
     }
     else
     {
-- 
2.43.0


From 9777debd9268b87e401a523df0e47319f2a2ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:26 +0000
Subject: [PATCH 33/38] fix: accept empty datagrams

---
 .../socket/detail/nix/socket_operations.cpp   | 25 ++++++++-----------
 fly/net/socket/detail/socket_operations.hpp   |  4 +--
 .../socket/detail/win/socket_operations.cpp   | 25 ++++++++-----------
 fly/net/socket/udp_socket.cpp                 | 20 +++++++--------
 4 files changed, 32 insertions(+), 42 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index f3025dd..ba56d73 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -481,7 +481,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -496,32 +496,27 @@ std::string recv_from(
     ssize_t const status =
         ::recvfrom(handle, result.data(), result.size(), 0, base(address), &address_size);
 
-    if (status > 0)
-    {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
+    if (status == -1)
     {
-        if (status == -1)
-        {
-            would_block = fly::system::get_error_code() == EWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == EWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/socket_operations.hpp b/fly/net/socket/detail/socket_operations.hpp
index a3814d5..6230ceb 100644
--- a/fly/net/socket/detail/socket_operations.hpp
+++ b/fly/net/socket/detail/socket_operations.hpp
@@ -190,10 +190,10 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
  * @param packet_size The maxiumum message size to receive.
  * @param would_block Location to store if the operation would have blocked.
  *
- * @return The message received.
+ * @return If successful, the message received, which may be empty. Otherwise, an uninitialized value.
  */
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/win/socket_operations.cpp b/fly/net/socket/detail/win/socket_operations.cpp
index 199b239..4d771f3 100644
--- a/fly/net/socket/detail/win/socket_operations.cpp
+++ b/fly/net/socket/detail/win/socket_operations.cpp
@@ -497,7 +497,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -512,32 +512,27 @@ std::string recv_from(
     int const size = static_cast<int>(packet_size);
     int const status = ::recvfrom(handle, result.data(), size, 0, base(address), &address_size);
 
-    if (status > 0)
+    if (status == SOCKET_ERROR)
     {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
-    {
-        if (status == SOCKET_ERROR)
-        {
-            would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index f5b1acb..13355e7 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -151,19 +151,18 @@ std::string UdpSocket<EndpointType>::receive()
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
+    auto received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
 
-    if (received.size() == 0)
+    if (!received)
     {
         SLOGW(handle(), "Error receiving, closing");
         close();
-    }
-    else
-    {
-        SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
+
+        return std::string();
     }
 
-    return received;
+    SLOGD(handle(), "Received {} bytes from {}", received->size(), endpoint);
+    return std::move(*received);
 }
 
 //==================================================================================================
@@ -237,12 +236,13 @@ void UdpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const current_received =
+    auto const current_received =
         detail::recv_from(handle(), endpoint, packet_size(), would_block);
-    received += current_received;
 
-    if (!current_received.empty())
+    if (current_received)
     {
+        received += *current_received;
+
         SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
         std::invoke(std::move(callback), std::move(received));
     }
-- 
2.43.0


From 74db2d23ae00433043209ebdffeff76195c9d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:03 +0000
Subject: [PATCH 34/38] fix: complete a blocked send before sending the next
 message

---
 fly/net/socket/socket_service.cpp |  5 ++++-
 fly/net/socket/socket_service.hpp | 24 ++++++++++++++++++++++++
 fly/net/socket/tcp_socket.cpp     |  2 +-
 fly/net/socket/udp_socket.cpp     |  2 +-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index af08937..862dd03 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -135,8 +135,11 @@ void SocketService::poll()
                     return handle == request.m_handle;
                 });
 
-            std::invoke(std::move(it->m_callback));
+            // The request is erased first because its callback might add another request.
+            Notification callback = std::move(it->m_callback);
             pending.erase(it);
+
+            std::invoke(std::move(callback));
         }
     };
 
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index edb7c49..5d4f6b2 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -101,6 +101,20 @@ public:
     template <Socket SocketType, SocketNotification<SocketType> Callback>
     void notify_when_readable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
 
+    /**
+     * Continue to monitor a socket handle for readiness to be written to, ahead of all other requests
+     * to monitor that handle. May only be used from within the callback of such a request, when its
+     * operation has not been completed.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     * @tparam Callback Type of the callback to invoke when the socket is ready for writing.
+     *
+     * @param socket The socket to monitor.
+     * @param callback The callback to invoke when the socket is ready for writing.
+     */
+    template <Socket SocketType, SocketNotification<SocketType> Callback>
+    void resume_when_writable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
+
 private:
     using Notification = std::function<void()>;
 
@@ -200,6 +214,16 @@ void SocketService::notify_when_readable(
     notify_when_readable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
 }
 
+//==================================================================================================
+template <Socket SocketType, SocketNotification<SocketType> Callback>
+void SocketService::resume_when_writable(
+    std::shared_ptr<SocketType> const &socket,
+    Callback &&callback)
+{
+    auto notification = wrap_callback(socket, std::forward<Callback>(callback));
+    m_write_requests.emplace(m_write_requests.begin(), socket->handle(), std::move(notification));
+}
+
 //==================================================================================================
 template <Socket SocketType, SocketNotification<SocketType> Callback>
 auto SocketService::wrap_callback(std::shared_ptr<SocketType> const &socket, Callback &&callback)
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 386bcaf..545bd73 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -333,7 +333,7 @@ void TcpSocket<EndpointType>::ready_to_send(
         SLOGI(handle(), "Send would block - sent {} of {} bytes", bytes_sent, total_bytes);
         message = message.substr(current_sent);
 
-        socket_service()->notify_when_writable(
+        socket_service()->resume_when_writable(
             this->shared_from_this(),
             [message, callback = std::move(callback), bytes_sent, total_bytes](
                 std::shared_ptr<TcpSocket> self) mutable {
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index 13355e7..4ecbbea 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -208,7 +208,7 @@ void UdpSocket<EndpointType>::ready_to_send(
         SLOGI(handle(), "Send would block - sent {} of {} bytes", bytes_sent, total_bytes);
         message = message.substr(current_sent);
 
-        socket_service()->notify_when_writable(
+        socket_service()->resume_when_writable(
             this->shared_from_this(),
             [endpoint, message, callback = std::move(callback), bytes_sent, total_bytes](
                 std::shared_ptr<UdpSocket> self) mutable {
-- 
2.43.0


From 3b3336a196e36bd74be019a3733fb1b7b1e240f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:26 +0000
Subject: [PATCH 35/38] fix: do not poll the handle of a socket that was closed
 before its request was processed

---
 fly/net/socket/socket_service.cpp | 30 ++++++++++++++------
 fly/net/socket/socket_service.hpp | 47 +++++++++++++++++++++++++++----
 2 files changed, 63 insertions(+), 14 deletions(-)

diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index 862dd03..2fbe39b 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -61,11 +61,18 @@ void SocketService::remove_socket(socket_type handle)
 }
 
 //==================================================================================================
-void SocketService::notify_when_writable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_writable(Handle &&socket_handle, Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](
+    auto task = [socket_handle = std::move(socket_handle), callback = std::move(callback)](
                     std::shared_ptr<SocketService> self) mutable {
-        if (handle == detail::invalid_socket())
+        // The socket might have been closed or destroyed since this request was made.
+        auto const handle = socket_handle();
+
+        if (!handle)
+        {
+            return;
+        }
+        else if (*handle == detail::invalid_socket())
         {
             // A socket which is not open will never become ready. Let its operation fail instead.
             std::invoke(std::move(callback));
@@ -73,7 +80,7 @@ void SocketService::notify_when_writable(socket_type handle, Notification &&call
         }
 
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
-        self->m_write_requests.emplace_back(handle, std::move(callback));
+        self->m_write_requests.emplace_back(*handle, std::move(callback));
 
         if (should_poll)
         {
@@ -86,11 +93,18 @@ void SocketService::notify_when_writable(socket_type handle, Notification &&call
 }
 
 //==================================================================================================
-void SocketService::notify_when_readable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_readable(Handle &&socket_handle, Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](
+    auto task = [socket_handle = std::move(socket_handle), callback = std::move(callback)](
                     std::shared_ptr<SocketService> self) mutable {
-        if (handle == detail::invalid_socket())
+        // The socket might have been closed or destroyed since this request was made.
+        auto const handle = socket_handle();
+
+        if (!handle)
+        {
+            return;
+        }
+        else if (*handle == detail::invalid_socket())
         {
             // A socket which is not open will never become ready. Let its operation fail instead.
             std::invoke(std::move(callback));
@@ -98,7 +112,7 @@ void SocketService::notify_when_readable(socket_type handle, Notification &&call
         }
 
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
-        self->m_read_requests.emplace_back(handle, std::move(callback));
+        self->m_read_requests.emplace_back(*handle, std::move(callback));
 
         if (should_poll)
         {
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index 5d4f6b2..9ca7d6d 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -5,6 +5,7 @@
 
 #include <functional>
 #include <memory>
+#include <optional>
 #include <vector>
 
 namespace fly::task {
@@ -116,6 +117,7 @@ public:
     void resume_when_writable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
 
 private:
+    using Handle = std::function<std::optional<socket_type>()>;
     using Notification = std::function<void()>;
 
     struct Request
@@ -142,10 +144,10 @@ private:
      * Note: The provided callback will be triggered directly on the sequence that is monitoring all
      * sockets. Thus, the callback should not perform any blocking operations.
      *
-     * @param handle The socket handle to monitor.
+     * @param socket_handle Accessor for the handle of the socket to monitor.
      * @param callback The callback to invoke when the socket is ready for writing.
      */
-    void notify_when_writable(socket_type handle, Notification &&callback);
+    void notify_when_writable(Handle &&socket_handle, Notification &&callback);
 
     /**
      * Monitor a socket handle for readiness to be read from. Once queued, if the polling task is
@@ -154,10 +156,23 @@ private:
      * Note: The provided callback will be triggered directly on the sequence that is monitoring all
      * sockets. Thus, the callback should not perform any blocking operations.
      *
-     * @param handle The socket handle to monitor.
+     * @param socket_handle Accessor for the handle of the socket to monitor.
      * @param callback The callback to invoke when the socket is ready for reading.
      */
-    void notify_when_readable(socket_type handle, Notification &&callback);
+    void notify_when_readable(Handle &&socket_handle, Notification &&callback);
+
+    /**
+     * Create an accessor for the current handle of a socket. The accessor only holds a weak pointer to
+     * the socket, and results in an uninitialized value once the socket is destroyed.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     *
+     * @param socket The socket to monitor.
+     *
+     * @return The handle accessor.
+     */
+    template <Socket SocketType>
+    Handle wrap_handle(std::shared_ptr<SocketType> const &socket);
 
     /**
      * Wrap a callback in a lambda to be protected by the provied strong socket pointer. The strong
@@ -202,7 +217,9 @@ void SocketService::notify_when_writable(
     std::shared_ptr<SocketType> const &socket,
     Callback &&callback)
 {
-    notify_when_writable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    notify_when_writable(
+        wrap_handle(socket),
+        wrap_callback(socket, std::forward<Callback>(callback)));
 }
 
 //==================================================================================================
@@ -211,7 +228,9 @@ void SocketService::notify_when_readable(
     std::shared_ptr<SocketType> const &socket,
     Callback &&callback)
 {
-    notify_when_readable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    notify_when_readable(
+        wrap_handle(socket),
+        wrap_callback(socket, std::forward<Callback>(callback)));
 }
 
 //==================================================================================================
@@ -224,6 +243,22 @@ void SocketService::resume_when_writable(
     m_write_requests.emplace(m_write_requests.begin(), socket->handle(), std::move(notification));
 }
 
+//==================================================================================================
+template <Socket SocketType>
+auto SocketService::wrap_handle(std::shared_ptr<SocketType> const &socket) -> Handle
+{
+    std::weak_ptr<SocketType> weak_socket = socket;
+
+    return [weak_socket = std::move(weak_socket)]() -> std::optional<socket_type> {
+        if (std::shared_ptr<SocketType> strong_socket = weak_socket.lock(); strong_socket)
+        {
+            return strong_socket->handle();
+        }
+
+        return std::nullopt;
+    };
+}
+
 //==================================================================================================
 template <Socket SocketType, SocketNotification<SocketType> Callback>
 auto SocketService::wrap_callback(std::shared_ptr<SocketType> const &socket, Callback &&callback)
-- 
2.43.0


From 7afb7053c9a6130da6cd23fc0f5b207bef50406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:39 +0000
Subject: [PATCH 36/38] fix: let a socket's validity be asked while its service
 closes it

---
 fly/net/socket/detail/base_socket.cpp | 7 ++-----
 fly/net/socket/detail/base_socket.hpp | 3 ++-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 2ee43f4..fa8a5c1 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -47,11 +47,10 @@ template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType>::BaseSocket(BaseSocket &&socket) noexcept :
     m_weak_socket_service(std::move(socket.m_weak_socket_service)),
     m_config(std::move(socket.m_config)),
-    m_socket_handle(socket.m_socket_handle),
+    m_socket_handle(socket.m_socket_handle.exchange(fly::net::detail::invalid_socket())),
     m_socket_id(socket.m_socket_id),
     m_mode(socket.m_mode)
 {
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
 }
 
 //==================================================================================================
@@ -67,12 +66,10 @@ BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socke
 {
     m_weak_socket_service = std::move(socket.m_weak_socket_service);
     m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle;
+    m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
     m_socket_id = socket.m_socket_id;
     m_mode = socket.m_mode;
 
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
-
     return *this;
 }
 
diff --git a/fly/net/socket/detail/base_socket.hpp b/fly/net/socket/detail/base_socket.hpp
index a266482..e8b73db 100644
--- a/fly/net/socket/detail/base_socket.hpp
+++ b/fly/net/socket/detail/base_socket.hpp
@@ -3,6 +3,7 @@
 #include "fly/net/socket/concepts.hpp"
 #include "fly/net/socket/types.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <memory>
 #include <optional>
@@ -182,7 +183,7 @@ private:
 
     std::shared_ptr<fly::net::NetworkConfig> m_config;
 
-    socket_type m_socket_handle;
+    std::atomic<socket_type> m_socket_handle;
     std::uint64_t m_socket_id;
     fly::net::IOMode m_mode;
 };
-- 
2.43.0


From 37090593487f3cb3959d6c133022923beb7734df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:01 +0000
Subject: [PATCH 37/38] fix: close the descriptor of a socket that is moved
 over

---
 fly/net/socket/detail/base_socket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index fa8a5c1..8291382 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -64,6 +64,8 @@ BaseSocket<EndpointType>::~BaseSocket() noexcept
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socket) noexcept
 {
+    close();
+
     m_weak_socket_service = std::move(socket.m_weak_socket_service);
     m_config = std::move(socket.m_config);
     m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
-- 
2.43.0


From 886692cbd1d8969b864efca2b6b387f08f0ad6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:15 +0000
Subject: [PATCH 38/38] fix: do not report a closed socket as connected or
 listening

---
 fly/net/socket/listen_socket.cpp | 2 +-
 fly/net/socket/listen_socket.hpp | 1 +
 fly/net/socket/tcp_socket.cpp    | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 4351752..6c743e9 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -87,7 +87,7 @@ bool ListenSocket<EndpointType>::listen()
 template <IPEndpoint EndpointType>
 bool ListenSocket<EndpointType>::is_listening() const
 {
-    return m_is_listening;
+    return is_open() && m_is_listening;
 }
 
 //==================================================================================================
diff --git a/fly/net/socket/listen_socket.hpp b/fly/net/socket/listen_socket.hpp
index 7a9ceb5..34ea682 100644
--- a/fly/net/socket/listen_socket.hpp
+++ b/fly/net/socket/listen_socket.hpp
@@ -100,6 +100,7 @@ public:
     using BaseSocket::close;
     using BaseSocket::handle;
     using BaseSocket::io_mode;
+    using BaseSocket::is_open;
 
 private:
     friend SocketService;
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 545bd73..172f7ec 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -224,14 +224,14 @@ ConnectedState TcpSocket<EndpointType>::finish_connect()
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::is_connecting() const
 {
-    return m_connected_state.load() == ConnectedState::Connecting;
+    return is_open() && m_connected_state.load() == ConnectedState::Connecting;
 }
 
 //==================================================================================================
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::is_connected() const
 {
-    return m_connected_state.load() == ConnectedState::Connected;
+    return is_open() && m_connected_state.load() == ConnectedState::Connected;
 }
 
 //==================================================================================================
-- 
2.43.0

