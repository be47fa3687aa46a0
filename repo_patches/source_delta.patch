From 921114aa3073223eee13c3375b50ec99ab64e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 01/16] fix: pad \u escapes to four hex digits

---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..0eb79ea 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -82,7 +82,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From 62e8cdb6bc332c4171f80cd7bc1eb09a81a2efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 02/16] fix: compare whole code points when scanning digits and
 literals

---
 include/configor/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 0eb79ea..38bfbae 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -326,7 +326,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
@@ -624,9 +624,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t ch) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return '0' <= ch && ch <= '9';
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From fb800f79d68360aa7b5817fed1532b44cf97d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 03/16] fix: report a sign without digits as a deserialization
 error

---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 38bfbae..a54df00 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -509,7 +509,8 @@ public:
     {
         using integer_type = typename value_type::integer_type;
 
-        CONFIGOR_ASSERT(is_digit(current_));
+        if (!is_digit(current_))
+            fail("invalid number, got", current_);
 
         number_integer_ = static_cast<integer_type>(current_ - '0');
         while (true)
-- 
2.43.0


From 891833992940605b2ad63b3ffd0a9a119c7af93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 04/16] fix: reject an exponent sign without digits

---
 include/configor/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index a54df00..22e5ed8 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -584,6 +584,9 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-- 
2.43.0


From b05f23252be3c6c83f366d4446e6336bd19ef353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 05/16] fix: end a block comment at the first '*/' even after
 further asterisks

---
 include/configor/json.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 22e5ed8..dd65007 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -297,9 +297,10 @@ public:
         else if (current_ == '*')
         {
             // multiple line comment
+            read_next();
             while (true)
             {
-                if (read_next() == '*')
+                if (current_ == '*')
                 {
                     if (read_next() == '/')
                     {
@@ -308,6 +309,10 @@ public:
                         break;
                     }
                 }
+                else
+                {
+                    read_next();
+                }
 
                 if (this->is_.eof())
                 {
-- 
2.43.0


From 8fd819344e47637ec9358c391304a155940ed3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 06/16] fix: reject integers out of range instead of
 overflowing

---
 include/configor/json.hpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index dd65007..087c5b4 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -24,6 +24,7 @@
 #include <algorithm>  // std::for_each
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
+#include <limits>     // std::numeric_limits
 
 namespace configor
 {
@@ -163,7 +164,8 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        // the digits are accumulated as a non-positive number
+        out = is_negative_ ? number_integer_ : -number_integer_;
     }
 
     virtual void get_float(typename value_type::float_type& out) override
@@ -488,6 +490,7 @@ public:
     {
         is_negative_    = false;
         number_integer_ = 0;
+        number_float_   = 0;
 
         if (current_ == '-' || current_ == '+')
         {
@@ -513,22 +516,42 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
+        using float_type   = typename value_type::float_type;
 
         if (!is_digit(current_))
             fail("invalid number, got", current_);
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
+        // accumulate a non-positive number, so that the lowest integer can be represented
+        const integer_type min = (std::numeric_limits<integer_type>::min)();
+        const integer_type max = (std::numeric_limits<integer_type>::max)();
+
+        bool overflow   = false;
+        number_integer_ = -static_cast<integer_type>(current_ - '0');
+        number_float_   = static_cast<float_type>(current_ - '0');
         while (true)
         {
             const auto ch = read_next();
             if (ch == '.' || ch == 'e' || ch == 'E')
                 return scan_float();
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
-            else
+            if (!is_digit(ch))
                 break;
+
+            const auto digit = static_cast<integer_type>(ch - '0');
+            if (overflow || number_integer_ < (min + digit) / 10)
+            {
+                overflow      = true;
+                number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
+            }
+            else
+            {
+                number_integer_ = number_integer_ * 10 - digit;
+                number_float_   = -static_cast<float_type>(number_integer_);
+            }
         }
+
+        if (overflow || (!is_negative_ && number_integer_ < -max))
+            fail("integer number out of range");
         return token_type::value_integer;
     }
 
@@ -536,8 +559,6 @@ public:
     {
         using float_type = typename value_type::float_type;
 
-        number_float_ = static_cast<float_type>(number_integer_);
-
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
 
-- 
2.43.0


From ca5c6bca6b7759d327a50e2ab518ee191abefe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 07/16] fix: do not wrap around a large exponent

---
 include/configor/json.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 087c5b4..c282b4b 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -616,7 +616,9 @@ public:
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            // saturate, any float is out of range then
+            if (exponent < 100000000)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
         float_type power = 1;
@@ -624,7 +626,8 @@ public:
             if (exponent & 1)
                 power *= base;
 
-        number_float_ *= power;
+        if (number_float_ != 0)
+            number_float_ *= power;
         return token_type::value_float;
     }
 
-- 
2.43.0


From 4e0ab924965fc84ac92adc445b1650dfa531412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 08/16] fix: report a failure to decode the first character to
 the error handler

---
 include/configor/details/parser.hpp |  3 +++
 include/configor/json.hpp           | 13 ++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..34499e7 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -56,6 +56,7 @@ public:
     {
         try
         {
+            prepare_scan();
             do_parse(c, token_type::uninitialized);
             if (scan() != token_type::end_of_input)
                 fail(token_type::end_of_input);
@@ -87,6 +88,8 @@ public:
     }
 
 protected:
+    virtual void prepare_scan() {}
+
     virtual token_type scan() = 0;
 
     virtual void get_integer(typename value_type::integer_type& out) = 0;
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index c282b4b..7d8da0a 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -155,13 +155,6 @@ public:
         std::for_each(options.begin(), options.end(), [&](const option& option) { option(*this); });
     }
 
-    virtual void parse(value_type& c) override
-    {
-        // read first char
-        read_next();
-        basic_parser<value_type, source_char_type>::parse(c);
-    }
-
     virtual void get_integer(typename value_type::integer_type& out) override
     {
         // the digits are accumulated as a non-positive number
@@ -178,6 +171,12 @@ public:
         scan_string(out);
     }
 
+    virtual void prepare_scan() override
+    {
+        // read first char
+        read_next();
+    }
+
     virtual token_type scan() override
     {
         skip_spaces();
-- 
2.43.0


From 643a76704254defc57def6b7131d96ceeed60233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 09/16] fix: do not convert floats beyond the range of int64_t
 to integers

---
 include/configor/json.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 7d8da0a..73aba31 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -894,7 +894,12 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        if (!std::isfinite(f))
+        {
+            throw configor_serialization_error("number is not finite");
+        }
+
+        if (std::ceil(f) == std::floor(f) && std::fabs(f) < 9223372036854775808.0)
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
-- 
2.43.0


From ac86942ea952a9abc68e62939cd1ee2563152577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 10/16] fix: count the peeked character read from an input
 adapter

---
 include/configor/details/stream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..76d94ec 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -177,6 +177,10 @@ private:
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
+            if (num <= 0)
+                return 0;
+
+            const auto count = num;
             if (last_char_ != 0)
             {
                 // read last char
@@ -186,7 +190,7 @@ private:
                 --num;
             }
             adapter_.read(s, static_cast<size_t>(num));
-            return num;
+            return count;
         }
 
     private:
-- 
2.43.0


From 08891f0a96608c50787468f4337d67ef6c06d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 11/16] fix: advance string and buffer inputs on block reads

---
 include/configor/details/stream.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 76d94ec..b6a5ad5 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -281,7 +281,10 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (num <= 0 || index_ >= str_.size())
+            return 0;
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -323,11 +326,12 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (index_ + static_cast<size_t>(num) >= size_)
-            num = static_cast<std::streamsize>(size_ - index_);
-        if (num == 0)
+        if (num <= 0 || index_ >= size_)
             return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
+        if (static_cast<size_t>(num) > size_ - index_)
+            num = static_cast<std::streamsize>(size_ - index_);
+        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
+        index_ += static_cast<size_t>(num);
         return num;
     }
 
-- 
2.43.0


From b79f554a414c854585c7e957708c7a1516201fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 12/16] fix: keep null characters and the read position of C
 files

---
 include/configor/details/stream.hpp | 52 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index b6a5ad5..63e3a66 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -355,36 +355,38 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
-        , last_char_(0)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
-            return last_char_;
-        last_char_ = std::fgetc(file_);
-        return last_char_;
+        const int_type c = std::fgetc(file_);
+        if (c != traits_type::eof())
+            std::ungetc(c, file_);
+        return c;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
-        return c;
+        return std::fgetc(file_);
     }
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        for (; count < num; ++count)
+        {
+            const int_type c = std::fgetc(file_);
+            if (c == traits_type::eof())
+                break;
+            s[count] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
     std::FILE* file_;
-    int_type   last_char_;
 };
 
 template <>
@@ -398,36 +400,38 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
-        , last_char_(0)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
-            return last_char_;
-        last_char_ = std::fgetwc(file_);
-        return last_char_;
+        const int_type c = std::fgetwc(file_);
+        if (c != traits_type::eof())
+            std::ungetwc(c, file_);
+        return c;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
-        return c;
+        return std::fgetwc(file_);
     }
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        for (; count < num; ++count)
+        {
+            const int_type c = std::fgetwc(file_);
+            if (c == traits_type::eof())
+                break;
+            s[count] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
     std::FILE* file_;
-    int_type   last_char_;
 };
 
 //
-- 
2.43.0


From ded9b8aaa5f7b7b74ec298efc97dcb933c651d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 13/16] fix: keep a dumped float a float when the precision
 drops its fraction

---
 include/configor/json.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 73aba31..576e96f 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -906,7 +906,17 @@ public:
         }
         else
         {
-            this->os_ << f;
+            fast_basic_ostringstream<target_char_type> ss;
+            ss.copyfmt(this->os_);
+            ss << f;
+            this->os_.write(ss.str().data(), static_cast<std::streamsize>(ss.str().size()));
+
+            // the precision may have dropped the fraction
+            const target_char_type float_marks[] = { '.', 'e', '\0' };
+            if (ss.str().find_first_of(float_marks) == ss.str().npos)
+            {
+                this->os_ << ".0";
+            }
         }
     }
 
-- 
2.43.0


From 65bbdb79b74a52e907145226967c8addc60e1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 14/16] fix: reject an object member without a value

---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 34499e7..8b96002 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -185,7 +185,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From 3d32796ce6f9daec7cbf4d3eddf8ac06fede4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 15/16] fix: refuse an index near the top of size_type in
 operator[]

---
 include/configor/details/value.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..a8d1933 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -722,6 +722,11 @@ public:
 
         if (index >= data().vector->size())
         {
+            // the number of elements to insert must not wrap around
+            if (index >= data().vector->max_size())
+            {
+                throw std::out_of_range("operator[] index out of range");
+            }
             data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());
         }
         return (*data().vector)[index];
-- 
2.43.0


From e6717a40edf194a0a8932a4d64ed1741f0ce49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 16/16] fix: replace the contents of a map converted from a
 value

Reading an object into a std::map or std::unordered_map kept the members the target
held before, and their values won over the ones read: with m = {a:1, z:9},
json::parse("{\"a\":2}").get(m) left m unchanged.  Every other container is
replaced by the conversion.
---
 include/configor/details/conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..218b6db 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -449,6 +449,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +475,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0

