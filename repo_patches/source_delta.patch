From 9414de358a829e10ae8c93fa2ea0b5b4dc3f66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 01/23] fix: what() of option errors must not throw when memory
 runs out

error_with_option_name::what() is noexcept but builds its text on the fly;
std::bad_alloc from there ended the program. Fall back to the template.
---
 src/value_semantic.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..808c3b9 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -262,8 +262,20 @@ namespace boost { namespace program_options {
 
     const char* error_with_option_name::what() const BOOST_NOEXCEPT_OR_NOTHROW
     {
-        // will substitute tokens each time what is run()
-        substitute_placeholders(m_error_template);
+#ifndef BOOST_NO_EXCEPTIONS
+        try
+#endif
+        {
+            // will substitute tokens each time what is run()
+            substitute_placeholders(m_error_template);
+        }
+#ifndef BOOST_NO_EXCEPTIONS
+        catch(...)
+        {
+            // e.g. out of memory: what() must not throw
+            return error::what();
+        }
+#endif
 
         return m_message.c_str();
     }
-- 
2.43.0


From 3f7d3d09b4facf3b86c02f8cf30871f0ea40ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 02/23] fix: error messages no longer expand placeholders found
 inside values

A value such as '%value%' made replace_token() loop for ever, and names or
tokens that look like a placeholder were altered in the message. Substitute in
one pass over the template.
---
 src/value_semantic.cpp | 47 ++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 808c3b9..e39b7cd 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -282,13 +282,15 @@ namespace boost { namespace program_options {
 
     void error_with_option_name::replace_token(const string& from, const string& to) const
     {
-        for (;;)
+        for (std::size_t pos = 0;;)
         {
-            std::size_t pos = m_message.find(from.c_str(), 0, from.length());
+            pos = m_message.find(from.c_str(), pos, from.length());
             // not found: all replaced
             if (pos == std::string::npos)
                 return;
             m_message.replace(pos, from.length(), to);
+            // do not look for 'from' in what it was replaced with
+            pos += to.length();
         }
     }
 
@@ -359,10 +361,25 @@ namespace boost { namespace program_options {
         //
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
+        //  This is done in one pass, so that what looks like a placeholder
+        //  inside of a value is left alone.
         // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        string::size_type pos = 0;
+        while ((pos = m_message.find('%', pos)) != string::npos)
+        {
+            string::size_type end = m_message.find('%', pos + 1);
+            if (end == string::npos)
+                break;
+            map<string, string>::const_iterator iter = 
+                substitutions.find(m_message.substr(pos + 1, end - pos - 1));
+            if (iter == substitutions.end())
+                pos = end;
+            else
+            {
+                m_message.replace(pos, end - pos + 1, iter->second);
+                pos += iter->second.length();
+            }
+        }
     }
 
 
@@ -379,29 +396,29 @@ namespace boost { namespace program_options {
         }
 
 
-        string error_template  = original_error_template;
+        // use inherited logic
+        error_with_option_name::substitute_placeholders(original_error_template);
+
+        // The alternatives are appended afterwards: they are not part of the template.
+        const string prefix = get_canonical_option_prefix();
         // remove duplicates using std::set
         std::set<std::string>   alternatives_set (m_alternatives.begin(), m_alternatives.end());
         std::vector<std::string> alternatives_vec (alternatives_set.begin(), alternatives_set.end());
 
-        error_template += " and matches ";
+        m_message += " and matches ";
         // Being very cautious: should be > 1 alternative!
         if (alternatives_vec.size() > 1)
         {
             for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
-                error_template += "'%prefix%" + alternatives_vec[i] + "', ";
-            error_template += "and ";
+                m_message += "'" + prefix + alternatives_vec[i] + "', ";
+            m_message += "and ";
         }
 
         // there is a programming error if multiple options have the same name...
         if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)
-            error_template += "different versions of ";
-
-        error_template += "'%prefix%" + alternatives_vec.back() + "'";
+            m_message += "different versions of ";
 
-
-        // use inherited logic
-        error_with_option_name::substitute_placeholders(error_template);
+        m_message += "'" + prefix + alternatives_vec.back() + "'";
     }
 
 
-- 
2.43.0


From 86227f86f82cfdef54f6317f50abefc77b8703da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 03/23] fix: parse_environment with a missing environment or
 entries without '='

environ is a null pointer after clearenv(), and execve() passes on any strings;
the former crashed, the latter ran into an assertion. Skip such entries.
---
 .../program_options/environment_iterator.hpp    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/program_options/environment_iterator.hpp b/include/boost/program_options/environment_iterator.hpp
index 933919d..c83a12e 100644
--- a/include/boost/program_options/environment_iterator.hpp
+++ b/include/boost/program_options/environment_iterator.hpp
@@ -10,7 +10,6 @@
 
 #include <utility>
 #include <string>
-#include <cassert>
 
 namespace boost {
 
@@ -32,16 +31,20 @@ namespace boost {
         
         void get()
         {
-            if (*m_environment == 0)
+            // The environment may be missing altogether (after 'clearenv'), and
+            // nothing guarantees that all entries have the form 'name=value'.
+            std::string s;
+            std::string::size_type n = s.npos;
+            for (; m_environment && *m_environment && n == s.npos; ++m_environment)
+            {
+                s = *m_environment;
+                n = s.find('=');
+            }
+            if (n == s.npos)
                 found_eof();
             else {
-                std::string s(*m_environment);
-                std::string::size_type n = s.find('=');
-                assert(n != s.npos);
                 value().first = s.substr(0, n);
                 value().second = s.substr(n+1);
-                
-                ++m_environment;
             }
         }
         
-- 
2.43.0


From 874adb7dcabf074874ab477ade152263ef1e2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 04/23] fix: option names are not lost when memory runs out
 while they are split

std::getline swallows std::bad_alloc and sets badbit, so set_names() dropped
names silently or ran into its assertion.
---
 src/options_description.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..ac1f882 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -193,6 +193,8 @@ namespace boost { namespace program_options {
     {
         m_long_names.clear();
         std::istringstream iss(_names);
+        // running out of memory must not look like the end of the names
+        iss.exceptions(std::ios_base::badbit);
         std::string name;
 
         while(std::getline(iss, name, ',')) {
-- 
2.43.0


From 2516f4093cb28b431b8b732f57d3a2e71243f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 05/23] fix: help text is not silently shortened when memory
 runs out

A stringstream swallows std::bad_alloc; build the first column in a string.
---
 src/options_description.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index ac1f882..1f0739c 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -614,15 +614,14 @@ namespace boost { namespace program_options {
         void format_one(std::ostream& os, const option_description& opt, 
                         unsigned first_column_width, unsigned line_length)
         {
-            stringstream ss;
-            ss << "  " << opt.format_name() << ' ' << opt.format_parameter();
-            
-            // Don't use ss.rdbuf() since g++ 2.96 is buggy on it.
-            os << ss.str();
+            // Not a stringstream: it would silently drop text if memory runs out.
+            const string ss = "  " + opt.format_name() + ' ' + opt.format_parameter();
+
+            os << ss;
 
             if (!opt.description().empty())
             {
-                if (ss.str().size() >= first_column_width)
+                if (ss.size() >= first_column_width)
                 {
                    os.put('\n'); // first column is too long, lets put description in new line
                    for (unsigned pad = first_column_width; pad > 0; --pad)
@@ -630,7 +629,7 @@ namespace boost { namespace program_options {
                       os.put(' ');
                    }
                 } else {
-                   for(unsigned pad = first_column_width - static_cast<unsigned>(ss.str().size()); pad > 0; --pad)
+                   for(unsigned pad = first_column_width - static_cast<unsigned>(ss.size()); pad > 0; --pad)
                    {
                       os.put(' ');
                    }
@@ -651,9 +650,8 @@ namespace boost { namespace program_options {
         for (i = 0; i < m_options.size(); ++i)
         {
             const option_description& opt = *m_options[i];
-            stringstream ss;
-            ss << "  " << opt.format_name() << ' ' << opt.format_parameter();
-            width = (max)(width, static_cast<unsigned>(ss.str().size()));            
+            const string ss = "  " + opt.format_name() + ' ' + opt.format_parameter();
+            width = (max)(width, static_cast<unsigned>(ss.size()));            
         }
 
         /* Get width of groups as well*/
-- 
2.43.0


From 87d2d4932072c4a43ba2cdccdca7e4367c086f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 06/23] fix: an options description stays consistent when
 adding to it fails

When memory ran out, an option could be added without its group flag (undefined
behaviour when printing) and a group could be printed without being parsed. Also
adding a description to itself looped until memory ran out.
---
 src/options_description.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 1f0739c..1460d4b 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -322,18 +322,26 @@ namespace boost { namespace program_options {
     void
     options_description::add(shared_ptr<option_description> desc)
     {
+        // In this order, so that there is a flag for every option even if
+        // memory runs out.
+        belong_to_group.resize(m_options.size() + 1);
         m_options.push_back(desc);
-        belong_to_group.push_back(false);
     }
 
     options_description&
     options_description::add(const options_description& desc)
     {
         shared_ptr<options_description> d(new options_description(desc));
+
+        // Reserve everything first: either the whole group is added or, if
+        // memory runs out, nothing of it.
+        m_options.reserve(m_options.size() + d->m_options.size());
+        belong_to_group.reserve(m_options.size() + d->m_options.size());
         groups.push_back(d);
 
-        for (size_t i = 0; i < desc.m_options.size(); ++i) {
-            add(desc.m_options[i]);
+        // Use the copy: 'desc' may be this object.
+        for (size_t i = 0; i < d->m_options.size(); ++i) {
+            add(d->m_options[i]);
             belong_to_group.back() = true;
         }
 
-- 
2.43.0


From d2919092fb1ae13d2a229f0bb760db0b61a01251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 07/23] fix: value semantics are not leaked when creating an
 option runs out of memory

option_description's constructor took ownership of the semantic only after
copying the description, and add_options() not at all if the option_description
itself could not be allocated.
---
 src/options_description.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 1460d4b..dcfe4e8 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -21,6 +21,7 @@
 
 #include <cassert>
 #include <climits>
+#include <new>
 #include <cstring>
 #include <cstdarg>
 #include <sstream>
@@ -62,8 +63,10 @@ namespace boost { namespace program_options {
     option_description(const char* names,
                        const value_semantic* s,
                        const char* description)
-    : m_description(description), m_value_semantic(s)
+    : m_value_semantic(s)
     {
+        // only now, when 's' has an owner
+        m_description = description;
         this->set_names(names);
     }
 
@@ -267,12 +270,7 @@ namespace boost { namespace program_options {
     {
         // Create untypes semantic which accepts zero tokens: i.e. 
         // no value can be specified on command line.
-        // FIXME: does not look exception-safe
-        shared_ptr<option_description> d(
-            new option_description(name, new untyped_value(true), description));
-
-        owner->add(d);
-        return *this;
+        return (*this)(name, new untyped_value(true), description);
     }
 
     options_description_easy_init&
@@ -280,7 +278,14 @@ namespace boost { namespace program_options {
     operator()(const char* name,
                const value_semantic* s)
     {
-        shared_ptr<option_description> d(new option_description(name, s));
+        option_description* o = new (std::nothrow) option_description(name, s);
+        if (!o)
+        {
+            // nobody has become the owner of 's'
+            delete s;
+            boost::throw_exception(std::bad_alloc());
+        }
+        shared_ptr<option_description> d(o);
         owner->add(d);
         return *this;
     }
@@ -291,7 +296,15 @@ namespace boost { namespace program_options {
                const value_semantic* s,
                const char* description)
     {
-        shared_ptr<option_description> d(new option_description(name, s, description));
+        option_description* o = 
+            new (std::nothrow) option_description(name, s, description);
+        if (!o)
+        {
+            // nobody has become the owner of 's'
+            delete s;
+            boost::throw_exception(std::bad_alloc());
+        }
+        shared_ptr<option_description> d(o);
 
         owner->add(d);
         return *this;
-- 
2.43.0


From 7b586309dc3ace99221779906712dc081cb31a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 08/23] fix: '[]' in a configuration file reads before the
 start of an empty string

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..a3c01cd 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From c112de74af74b42bc2a7593af1a8b718e8f12850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 09/23] fix: a failed store no longer keeps the option's
 default away

store() leaves an empty entry for the option whose value was bad (after erasing
its default); later stores then took it for a given value.
---
 src/variables_map.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index 94ac614..c70dda8 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -119,7 +119,9 @@ namespace boost { namespace program_options {
             {
                 continue;
             }
-            if (m.count(key) == 0) {
+            // An earlier 'store' which failed may have left an empty value.
+            map<string, variable_value>::const_iterator known = m.find(key);
+            if (known == m.end() || known->second.empty()) {
 
                 boost::any def;
                 if (d.semantic()->apply_default(def)) {
-- 
2.43.0


From a5abd2679639fed13012a9e54192b53fc19176f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 10/23] fix: ambiguous option without original token crashed
 the command line parser

A short option from the middle of a group has no original token, but the error
path took the first one.
---
 src/cmdline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..a40c2ca 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -311,7 +311,11 @@ namespace boost { namespace program_options { namespace detail {
             catch(error_with_option_name& e)
             {
                 // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                // options which come from a user's parser, or from the middle of
+                // a group of short options, have no original token
+                e.add_context(opt.string_key, 
+                              opt.original_tokens.empty() ? opt.string_key : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From c5a77fbf16e3dc1dfb1f2d01f93174996180fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 11/23] fix: bool_switch no longer leaks when memory runs out

---
 src/value_semantic.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index e39b7cd..2e3818b 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -133,8 +133,15 @@ namespace boost { namespace program_options {
     bool_switch(bool* v)
     {
         typed_value<bool>* r = new typed_value<bool>(v);
-        r->default_value(0);
-        r->zero_tokens();
+        try {
+            r->default_value(0);
+            r->zero_tokens();
+        }
+        catch(...) {
+            // nobody has become the owner of 'r'
+            delete r;
+            throw;
+        }
 
         return r;
     }
-- 
2.43.0


From 0b52f573414fa953d7c9201e6164cf7c2c2d509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 12/23] fix: invalid bool message shows the value as it was
 given, not lower-cased

---
 src/value_semantic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 2e3818b..34f950d 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -166,7 +166,7 @@ namespace boost { namespace program_options {
         else if (s == "off" || s == "no" || s == "0" || s == "false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(s));
+            boost::throw_exception(invalid_bool_value(get_single_string(xs, true)));
     }
 
     // This is blatant copy-paste. However, templating this will cause a problem,
@@ -188,7 +188,7 @@ namespace boost { namespace program_options {
         else if (s == L"off" || s == L"no" || s == L"0" || s == L"false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(convert_value(s)));
+            boost::throw_exception(invalid_bool_value(convert_value(get_single_string(xs, true))));
     }
 #endif
     BOOST_PROGRAM_OPTIONS_DECL 
-- 
2.43.0


From d53055f2fe6e3eba1272047118eb704b261da257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 13/23] fix: conflicting wildcard options are both named
 correctly in the error

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index a3c01cd..0a53a36 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -52,7 +52,7 @@ namespace boost { namespace program_options { namespace detail {
                 if (i->find(s) == 0)
                     bad_prefixes = true;                    
             }
-            if (i != allowed_prefixes.begin()) {
+            if (!bad_prefixes && i != allowed_prefixes.begin()) {
                 --i;
                 if (s.find(*i) == 0)
                     bad_prefixes = true;
-- 
2.43.0


From ab3117f9ae033d9d5fe17fe1eb66b3935619e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 14/23] fix: help with lines shorter than the option column no
 longer asserts or loops

---
 src/options_description.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index dcfe4e8..721ffaf 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -699,6 +699,12 @@ namespace boost { namespace program_options {
         if (!width)
             width = get_option_column_width();
 
+        /* The width may come from a description with longer lines: keep at
+           least one column for the descriptions, or they could never be
+           printed. */
+        const unsigned first_column_width = width + 1 < m_line_length ? width 
+            : m_line_length > 2 ? m_line_length - 2 : 0;
+
         /* The options formatting style is stolen from Subversion. */
         for (unsigned i = 0; i < m_options.size(); ++i)
         {
@@ -707,7 +713,7 @@ namespace boost { namespace program_options {
 
             const option_description& opt = *m_options[i];
 
-            format_one(os, opt, width, m_line_length);
+            format_one(os, opt, first_column_width, m_line_length);
 
             os << "\n";
         }
-- 
2.43.0


From c1bbb9ebbac51f387f77706bad3b80f94516f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 15/23] fix: items of a user's style parser which are not plain
 arguments crashed the parser

After an option with room for more values, an unnamed item with no original
token, or with other than one value, ran into an assertion, or out of bounds
without assertions.
---
 src/cmdline.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index a40c2ca..9548fe3 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -346,13 +346,15 @@ namespace boost { namespace program_options { namespace detail {
                         break;
                     }
 
-                    assert(opt2.value.size() == 1);
-                    
-                    opt.value.push_back(opt2.value[0]);
-
-                    assert(opt2.original_tokens.size() == 1);
+                    // Items which come from a user's style parser need not
+                    // be plain arguments; leave those as they are.
+                    if (opt2.value.size() != 1)
+                        break;
 
-                    opt.original_tokens.push_back(opt2.original_tokens[0]);
+                    opt.value.push_back(opt2.value[0]);
+                    opt.original_tokens.insert(opt.original_tokens.end(),
+                                               opt2.original_tokens.begin(),
+                                               opt2.original_tokens.end());
                 }
                 i = j-1;
             }
-- 
2.43.0


From a16c06d64a8477bf48dd25c010391e275ba6ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 16/23] fix: the bare prefix of a wildcard option was rejected
 in configuration files

'foo*' covers every name that starts with 'foo', on the command line also 'foo'
itself; configuration files treated that one as unregistered.
---
 src/config_file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index 0a53a36..f5b9015 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -135,10 +135,10 @@ namespace boost { namespace program_options { namespace detail {
         set<string>::const_iterator i = allowed_options.find(s);
         if (i != allowed_options.end())
             return true;        
-        // If s is "pa" where "p" is allowed prefix then
-        // lower_bound should find the element after "p". 
+        // If s is "pa" or "p" where "p" is allowed prefix then
+        // upper_bound should find the element after "p". 
         // This depends on 'allowed_prefixes' invariant.
-        i = allowed_prefixes.lower_bound(s);
+        i = allowed_prefixes.upper_bound(s);
         if (i != allowed_prefixes.begin() && s.find(*--i) == 0)
             return true;
         return false;
-- 
2.43.0


From 8e5ab8f9004e0e4a5d44b7746c7b61af71c58597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 17/23] fix: match short options by their own case rule

With only long_case_insensitive, a short option with a capital letter was
never found ('-A' was looked up as '-a'); with only short_case_insensitive,
case was ignored on one side of the comparison.
---
 src/options_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 721ffaf..dcca58f 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -119,7 +119,8 @@ namespace boost { namespace program_options {
         {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
 
-            if (local_short_name == local_option)
+            // 'local_option' follows the case rule of long names
+            if (local_short_name == (short_ignore_case ? tolower_(option) : option))
             {
                 result = full_match;
             }
-- 
2.43.0


From 782561c0958daedc2488d5414a835dc83d5c68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 18/23] fix: a store that runs out of memory no longer leaves a
 required option without a name

---
 src/variables_map.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index c70dda8..d52cacd 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -138,8 +138,10 @@ namespace boost { namespace program_options {
                 //  "--"  >  ("-" or "/")  >  ""
                 //  Precedence is set conveniently by a single call to length()
                 string canonical_name = d.canonical_display_name(options.m_options_prefix);
-                if (canonical_name.length() > xm.m_required[key].length())
-                    xm.m_required[key] = canonical_name;
+                // No entry without a name, even if memory runs out.
+                string& name = xm.m_required.insert(make_pair(key, canonical_name)).first->second;
+                if (canonical_name.length() > name.length())
+                    name = canonical_name;
             }
         }
     }
-- 
2.43.0


From bfbd110feaafef5afefb248d92ff85d6a58d99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 19/23] fix: name the option which was looked up in errors of
 options_description::find

---
 src/options_description.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index dcca58f..1d49516 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -377,7 +377,7 @@ namespace boost { namespace program_options {
         const option_description* d = find_nothrow(name, approx, 
                                        long_ignore_case, short_ignore_case);
         if (!d)
-            boost::throw_exception(unknown_option());
+            boost::throw_exception(unknown_option(name));
         return *d;
     }
 
@@ -425,7 +425,11 @@ namespace boost { namespace program_options {
             }
         }
         if (full_matches.size() > 1) 
-            boost::throw_exception(ambiguous_option(full_matches));
+        {
+            ambiguous_option e(full_matches);
+            e.set_original_token(name);
+            boost::throw_exception(e);
+        }
         
         // If we have a full match, and an approximate match,
         // ignore approximate match instead of reporting error.
@@ -433,7 +437,11 @@ namespace boost { namespace program_options {
         // "--all" on the command line should select the first one,
         // without ambiguity.
         if (full_matches.empty() && approximate_matches.size() > 1)
-            boost::throw_exception(ambiguous_option(approximate_matches));
+        {
+            ambiguous_option e(approximate_matches);
+            e.set_original_token(name);
+            boost::throw_exception(e);
+        }
 
         return found.get();
     }
-- 
2.43.0


From aa2c8827bf47ebc6e7394aa18e2f0dcf6182fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 20/23] fix: show an option without a long name as -x, not as
 --x, in error messages

---
 src/value_semantic.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 34f950d..a8d982c 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -322,6 +322,14 @@ namespace boost { namespace program_options {
     }
 
 
+    namespace {
+        // The key of an option which has no long name: "-x"
+        bool is_short_name(const string& name)
+        {
+            return name.length() == 2 && name[0] == '-' && name[1] != '-' && name[1] != '/';
+        }
+    }
+
     string error_with_option_name::get_canonical_option_name() const
     {
         if (!m_substitutions.find("option")->second.length())
@@ -330,6 +338,11 @@ namespace boost { namespace program_options {
         string original_token   = strip_prefixes(m_substitutions.find("original_token")->second);
         string option_name      = strip_prefixes(m_substitutions.find("option")->second);
 
+        //  An option without a long name is known by its short name only
+        const string& name = m_substitutions.find("option")->second;
+        if (is_short_name(name) && m_option_style)
+            return (m_substitutions.find("original_token")->second.compare(0, 1, "/") == 0 ? "/" : "-") + option_name;
+
         //  For long options, use option name
         if (m_option_style == command_line_style::allow_long        || 
              m_option_style == command_line_style::allow_long_disguise)
@@ -411,13 +424,16 @@ namespace boost { namespace program_options {
         // remove duplicates using std::set
         std::set<std::string>   alternatives_set (m_alternatives.begin(), m_alternatives.end());
         std::vector<std::string> alternatives_vec (alternatives_set.begin(), alternatives_set.end());
+        for (unsigned i = 0; i < alternatives_vec.size(); ++i)
+            if (!is_short_name(alternatives_vec[i]))
+                alternatives_vec[i] = prefix + alternatives_vec[i];
 
         m_message += " and matches ";
         // Being very cautious: should be > 1 alternative!
         if (alternatives_vec.size() > 1)
         {
             for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
-                m_message += "'" + prefix + alternatives_vec[i] + "', ";
+                m_message += "'" + alternatives_vec[i] + "', ";
             m_message += "and ";
         }
 
@@ -425,7 +441,7 @@ namespace boost { namespace program_options {
         if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)
             m_message += "different versions of ";
 
-        m_message += "'" + prefix + alternatives_vec.back() + "'";
+        m_message += "'" + alternatives_vec.back() + "'";
     }
 
 
-- 
2.43.0


From db5574e7458b2fd1a13fc5812d9d9577bf13d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 21/23] fix: wvalue<std::string> stored a wide string, which
 could not be read as std::string

---
 src/value_semantic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index a8d982c..01d063c 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -203,7 +203,7 @@ namespace boost { namespace program_options {
     void validate(any& v, const vector<wstring>& xs, std::string*, int)
     {
         check_first_occurrence(v);
-        v = any(get_single_string(xs));
+        v = any(to_local_8_bit(get_single_string(xs)));
     }
 #endif
 
-- 
2.43.0


From f3a5b3c173f21145d5ff3a80c22b8d87128e8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 22/23] fix: a tab after the end of the line in a description
 ran into an assertion

---
 src/options_description.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 1d49516..5c01447 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -496,10 +496,6 @@ namespace boost { namespace program_options {
                 // erase tab from string
                 par.erase(par_indent, 1);
 
-                // this assert may fail due to user error or 
-                // environment conditions!
-                assert(par_indent < line_length);
-
                 // ignore tab if not on first line
                 if (par_indent >= line_length)
                 {
-- 
2.43.0


From 53552b364b63e0e79912746bfa4c270b92c53efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 23/23] fix: wide options lost the case rule of the option they
 were made from

---
 src/parsers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..0c30536 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,7 +75,8 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
-            
+            result.case_insensitive = opt.case_insensitive;
+
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
                            boost::bind(from_utf8, _1));
-- 
2.43.0

