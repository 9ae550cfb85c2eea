From 90871961b86ab8d57f302420a80bba08ca0872c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:49 +0000
Subject: [PATCH 01/40] fix: repetition and alternation in a regular expression
 no longer leak into neighbouring items

The loop created by '*' and '+' returned to a state shared with the preceding
item or with other alternatives, so a*b* matched 'ba' and (a*|b) matched 'aab'.
A top level '|' always returned to state 0 whatever state the regular
expression was added to.
---
 TameParse/Dfa/ndfa_regex.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7291232..7eddc33 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -177,6 +177,9 @@ int ndfa_regex::add_regex(int initialState, const symbol_string& regex) {
 int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     // Create an epsilon transform to an initial state for this regex
     cons >> epsilon();
+
+    // Alternatives at the top level of this regex begin at this initial state
+    cons.push();
     
     // Compile until we reach the end of the regex
     symbol_string::const_iterator pos = regex.begin();
@@ -194,6 +197,7 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     
     // Compile the end of the expression
     compile(end, end, cons);
+    cons.pop();
     
     // Return the final state
     return ((state)cons).identifier();
@@ -231,6 +235,21 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         return;
     }
     
+    // Begin each item (symbol, group or subexpression) in a state of its own. The loop formed by '*' or '+' returns to this
+    // state, so it must not be the starting point of another alternative or part of another loop.
+    switch (*pos) {
+        case ')':
+        case '|':
+        case '*':
+        case '+':
+        case '?':
+            break;
+
+        default:
+            cons >> epsilon();
+            break;
+    }
+
     // Default regex compiler
     switch (*pos) {
         case '(':           // Group start
-- 
2.43.0


From b68dd591c3b76583c919880db60d6f18daf9e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 02/40] fix: compacting a DFA no longer merges the first
 accepting state with the non-accepting states

a(aa)* matched 'aa' once compacted.
---
 TameParse/Dfa/ndfa_transformations.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index a229064..0dad8be 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -270,10 +270,8 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         thisState.insert(*initial);
     }
     
-    // Bundle all of the non-accepting states up into a single state
-    // (If all of the remaining states are accepting then we'll end up with a free bonus state here :-/)
-    int nonAcceptingStates = (int) newStates.size();
-    newStates.push_back(state_set());
+    // Bundle all of the non-accepting states up into a single state (created when the first one is found)
+    int nonAcceptingStates = -1;
     
     // Also remember which new state contains which set of accepting actions
     map<action_set, int> stateForActions;
@@ -288,6 +286,11 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
 
         // If this state is not an accepting state then add it to the non-accepting set
         if (acceptActions == m_Accept->end() || acceptActions->second.empty()) {
+            if (nonAcceptingStates == -1) {
+                nonAcceptingStates = (int) newStates.size();
+                newStates.push_back(state_set());
+            }
+
             newStates[nonAcceptingStates].insert(stateId);
             oldToNew[stateId] = nonAcceptingStates;
         }
@@ -323,7 +326,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
             
             if (existingState == stateForActions.end()) {
                 // Create a new state
-                targetState = (int) newStates.size()-1;
+                targetState = (int) newStates.size();
                 newStates.push_back(state_set());
             } else {
                 // Add to the existing state
@@ -395,7 +398,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
                 if (splitStateId == -1) {
                     // Assign a new state
                     changed         = true;
-                    splitStateId    = (int) newStates.size()-1;
+                    splitStateId    = (int) newStates.size();
                     newStates.push_back(state_set());
                 }
                 
-- 
2.43.0


From 03921cdf3a46cb6301305a1b61ab821297676169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 03/40] fix: symbol ranges that end on a 256 symbol boundary no
 longer hide the following block

The entry created for the (excluded) upper bound of a range masked the default
symbol of the block after it, and produced a negatively sized hard coded table.
---
 TameParse/Dfa/symbol_table.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index ee84c40..85d6ec9 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -116,6 +116,10 @@ namespace dfa {
                 return;
             }
             
+            // The range excludes its upper value, so nothing is needed for an entry that starts there
+            endIndex = range.upper() - 1 - base;
+            if (endIndex < 0) return;
+            endIndex >>= shift;
             if (endIndex > c_MaxIndex-1) endIndex = c_MaxIndex-1;
             
             // Create the symbol set if needed
-- 
2.43.0


From 2ea12516d15499af7d988ab7e4308aca259ca570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 04/40] fix: look up the low byte only at the lowest level of a
 hard coded symbol table

Symbols above 0xff always produced the default symbol set.
---
 TameParse/Dfa/hard_coded_symbol_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/hard_coded_symbol_table.h b/TameParse/Dfa/hard_coded_symbol_table.h
index bc9e724..fc6a4a9 100644
--- a/TameParse/Dfa/hard_coded_symbol_table.h
+++ b/TameParse/Dfa/hard_coded_symbol_table.h
@@ -70,10 +70,10 @@ namespace dfa {
         int highest = lowHigh>>8;
         
         // Return the default value if the symbol is out of range
-        if ((int) symbol < lowest || (int) symbol >= highest) return table[offset + 0];
+        int pos         = ((unsigned int) symbol&0xff);
+        if ((int) pos < lowest || (int) pos >= highest) return table[offset + 0];
         
         // Look up the symbol set
-        int pos         = ((unsigned int) symbol&0xff);
         int symbolSet   = table[offset + 2 + (pos - lowest)];
         
         // Use the default symbol if the offset is -1
-- 
2.43.0


From aa105785f591409c5936293f222c4fb03f89ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 05/40] fix: surrogate ranges that span several high surrogates
 accept every low surrogate

The low surrogates run from 0xdc00 to 0xdfff; the ranges built for the first and
last high surrogate were empty or began at 0xd800.
---
 TameParse/Dfa/ndfa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index 851c1f7..bad521b 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -241,14 +241,14 @@ static void add_surrogate_transition(const range<int>& surrogateRange, int curre
         nfa->add_transition(currentState, range<int>(surrogateLower.first, surrogateLower.first+1), tmpState1);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xdc00), targetState);
+        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xe000), targetState);
 
         // ... do the same for the 'upper' set of symbols
         int tmpState2 = nfa->add_state();
         nfa->add_transition(currentState, range<int>(surrogateHigher.first, surrogateHigher.first+1), tmpState2);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState2, range<int>(0xd800, surrogateHigher.second+1), targetState);
+        nfa->add_transition(tmpState2, range<int>(0xdc00, surrogateHigher.second+1), targetState);
 
         // If there's a middle range, then add transitions for that as well
         if (surrogateHigher.first-1 > surrogateLower.first) {
-- 
2.43.0


From 1b7da8ec4505a2d3e2401de7ed3d856c5b66d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 06/40] fix: copying a remapped symbol map copies its symbol
 sets

---
 TameParse/Dfa/remapped_symbol_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 7b97f3b..585316c 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -45,7 +45,8 @@ remapped_symbol_map::remapped_symbol_map() {
 
 /// \brief Copy constructor
 remapped_symbol_map::remapped_symbol_map(const remapped_symbol_map& copyFrom) 
-: m_OldToNew(copyFrom.m_OldToNew) {
+: symbol_map(copyFrom)
+, m_OldToNew(copyFrom.m_OldToNew) {
 }
 
 /// \brief Finds or adds an identifier for the specified symbol, adding the specified set of new symbols as the new symbols
-- 
2.43.0


From 0b1d57565410612ec98f6d50582a489429b471a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 07/40] fix: every line ending character advances the offset of
 a position

---
 TameParse/Dfa/position.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/position.h b/TameParse/Dfa/position.h
index 4c3c80b..040524a 100644
--- a/TameParse/Dfa/position.h
+++ b/TameParse/Dfa/position.h
@@ -174,6 +174,7 @@ namespace dfa {
                     break;
                     
                 case 0x0d:              // CR: Carriage Return
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = true;
                     break;
@@ -183,6 +184,7 @@ namespace dfa {
                 case 0x85:              // NEL: NExt Line
                 case 0x2028:            // LS: Line Separator
                 case 0x2029:            // PS: Paragraph Separator
+                    m_CurrentPosition.increment();
                     m_CurrentPosition.newline();
                     m_SeenReturn = false;
                     break;
-- 
2.43.0


From 6cecb358cc6d183c4d52645afe9c79e675906a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 08/40] fix: case conversion of a range that starts inside a
 mapped block stops at the end of that block

---
 TameParse/Util/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/unicode.cpp b/TameParse/Util/unicode.cpp
index c834673..de4c001 100644
--- a/TameParse/Util/unicode.cpp
+++ b/TameParse/Util/unicode.cpp
@@ -92,7 +92,7 @@ static symbol_set convert_range(const symbol_range& range, const map_entry* map,
             int initialChar = curItem->map_to + (lowerChar - curItem->lower);
 
             // The number of characters to map
-            int numChars = curItem->upper - curItem->lower;
+            int numChars = curItem->upper - lowerChar;
             if (numChars > upperChar - lowerChar) {
                 numChars = upperChar - lowerChar;
             }
-- 
2.43.0


From 4b24e7559fceed1f0e635b5e5940cd3689472da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 09/40] fix: bytes above 0x7f read from a stream are not
 negative symbols

---
 TameParse/Dfa/basic_lexer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/basic_lexer.h b/TameParse/Dfa/basic_lexer.h
index 99abafa..0c52baa 100644
--- a/TameParse/Dfa/basic_lexer.h
+++ b/TameParse/Dfa/basic_lexer.h
@@ -82,6 +82,12 @@ namespace dfa {
         private:
             /// The stream that this refers to
             stream& m_Stream; 
+
+            /// \brief The symbol for a byte (these are always treated as unsigned)
+            inline static int symbol_for(char c) { return (int)(unsigned char)c; }
+
+            /// \brief The symbol for a character
+            template<typename symbol_char> inline static int symbol_for(symbol_char c) { return (int)(unsigned)c; }
             
         public:
             stream_stream(stream& str)
@@ -96,7 +102,7 @@ namespace dfa {
                 if (!m_Stream.good()) {
                     result = symbol_set::end_of_input;
                 } else {
-                    result = (int)(unsigned)next;
+                    result = symbol_for(next);
                 }
                 return *this;
             }
-- 
2.43.0


From 696f8d213efada1cc5cf60238b98040bf377a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 10/40] fix: a string reader stays good until its last
 character has been read

---
 TameParse/Util/stringreader.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/TameParse/Util/stringreader.h b/TameParse/Util/stringreader.h
index 6480a2f..0e87482 100644
--- a/TameParse/Util/stringreader.h
+++ b/TameParse/Util/stringreader.h
@@ -67,19 +67,24 @@ namespace util {
         
         /// \brief Position within the string
         size_t m_Pos;
+
+        /// \brief True if an attempt has been made to read beyond the end of the string
+        bool m_ReadPastEnd;
         
     public:
         /// \brief Creates a new stringreader that references the supplied string
         basic_stringreader(const string_type& string)
         : m_SourceString(string)
-        , m_Pos(0) {
+        , m_Pos(0)
+        , m_ReadPastEnd(false) {
         }
         
         /// \brief Returns the next character in the string (or 0 if all of the characters have been read)
         inline basic_stringreader& get(char_type& target) {
             if (m_Pos >= m_SourceString.size()) {
                 // At the end of the string
-                target = 0;
+                target          = 0;
+                m_ReadPastEnd   = true;
             } else {
                 // Return the next character
                 target = m_SourceString[m_Pos++];
@@ -88,9 +93,9 @@ namespace util {
             return *this;
         }
         
-        /// \brief Returns true if there are more characters to read from the string
+        /// \brief Returns true until an attempt is made to read beyond the end of the string (as for an istream)
         inline bool good() const {
-            return m_Pos < m_SourceString.size();
+            return !m_ReadPastEnd;
         }
     };
     
-- 
2.43.0


From a2ed58e36809d05bf1f27ea1b4b6bacea5fabb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:08 +0000
Subject: [PATCH 11/40] fix: UTF-8 characters of more than one byte are
 recognised by their first byte and use their last byte

---
 TameParse/Util/utf8reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 92c8fa7..56877d5 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -95,7 +95,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
     }
 
     // Work out how many bytes are in the complete character
-    else if ((target & 0xe0) == 0xc0) {
+    else if ((firstChar & 0xe0) == 0xc0) {
         // Begins 110xxxx (0x80 - 0x7ff)
 
         // Read the remaining characters
@@ -111,7 +111,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
-    } else if ((target & 0xf0) == 0xe0) {
+    } else if ((firstChar & 0xf0) == 0xe0) {
         // Begins 1110xxxx (0x800 - 0xffff)
 
         // Read the remaining characters
@@ -128,7 +128,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
-    } else if ((target & 0xf8) == 0xf0) {
+    } else if ((firstChar & 0xf8) == 0xf0) {
         // Begins 11110000 (0x10000 - 0x1fffff)
 
         // Read the remaining characters
@@ -144,7 +144,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         }
 
         // Construct the UCS-4 character
-        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (secondChar&0x3f);
+        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
         // Must be less than 0x110000 to be a valid surrogate pair
         if (ucs4 >= 0x110000) {
-- 
2.43.0


From 43231a3995798acc6de4d1518fb86e27173a9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:08 +0000
Subject: [PATCH 12/40] fix: overlong UTF-8 sequences are badly formed

---
 TameParse/Util/utf8reader.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 56877d5..c6c7a7c 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -108,6 +108,13 @@ utf8reader& utf8reader::get(wchar_t& target) {
             return *this;
         }
 
+        // Stop if this character could have been written using fewer bytes
+        if (firstChar < 0xc2) {
+            m_BadUTF8   = true;
+            target      = 0;
+            return *this;
+        }
+
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
@@ -125,6 +132,13 @@ utf8reader& utf8reader::get(wchar_t& target) {
             return *this;
         }
 
+        // Stop if this character could have been written using fewer bytes
+        if (firstChar == 0xe0 && secondChar < 0xa0) {
+            m_BadUTF8   = true;
+            target      = 0;
+            return *this;
+        }
+
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
@@ -146,8 +160,8 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Construct the UCS-4 character
         unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
-        // Must be less than 0x110000 to be a valid surrogate pair
-        if (ucs4 >= 0x110000) {
+        // Must be in the range 0x10000 - 0x10ffff to be a valid surrogate pair
+        if (ucs4 < 0x10000 || ucs4 >= 0x110000) {
             m_BadUTF8   = true;
             target      = 0;
             return *this;
-- 
2.43.0


From 3d97743699d68cebfa1bc5e0f8b6dba7937f449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:09 +0000
Subject: [PATCH 13/40] fix: a subexpression defined as a literal is not
 reported as missing

---
 TameParse/Dfa/ndfa_regex.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7eddc33..6084fb4 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -920,6 +920,11 @@ bool ndfa_regex::check_expression(const symbol_string& expression) {
         return true;
     }
 
+    // Search the literal expression map
+    if (m_LiteralExpressionMap.find(expression) != m_LiteralExpressionMap.end()) {
+        return true;
+    }
+
     // Check if this is a valid unicode expression
     if (!unicode_for_expression(expression).empty()) {
         return true;
-- 
2.43.0


From 0621540306bdf738d1e0399e1d1bb0d7999e9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 14/40] fix: skipping or repeating a group that ends in a loop
 does not enter the loop

---
 TameParse/Dfa/ndfa_regex.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 6084fb4..2193104 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -222,6 +222,16 @@ void ndfa_regex::define_expression_literal(const symbol_string& name, const symb
     m_LiteralExpressionMap[name] = value;
 }
 
+/// \brief Ends a group in a state of its own
+///
+/// If the last item of the group is a loop then it returns from the state that was just reached. The group might be skipped or
+/// repeated: doing that must not lead into the loop.
+static void end_group(ndfa::builder& cons) {
+    const state& previous = cons.previous_state();
+    cons >> epsilon();
+    cons.goto_state(cons.current_state(), previous);
+}
+
 ///
 /// \brief Compiles a single symbol from a regular expression
 ///
@@ -260,6 +270,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
         case ')':           // Group end
             // Discard the entry on top of the stack
             cons.pop();
+            end_group(cons);
             break;
             
         case '|':           // Or
@@ -392,6 +403,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.push();
             compile_expression(expr, cons);
             cons.pop();
+            end_group(cons);
             break;
         }
 
-- 
2.43.0


From f71775afef14c3086a08d560ec9253ac51efbb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 15/40] fix: report conflicts between accepting and reducing

---
 TameParse/Lr/conflict.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index c765e77..23a9289 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -105,7 +105,6 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         switch ((*nextAction)->type()) {
             case lr_action::act_goto:
             case lr_action::act_ignore:
-            case lr_action::act_accept:
                 ignore = true;
                 break;
                 
-- 
2.43.0


From 0221a549b13a2498ebdaa1af888ed604fa2c61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 16/40] fix: adding items to a rule makes it forget its old
 identifier

---
 TameParse/ContextFree/rule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/TameParse/ContextFree/rule.cpp b/TameParse/ContextFree/rule.cpp
index 24f0afc..8bc92c3 100644
--- a/TameParse/ContextFree/rule.cpp
+++ b/TameParse/ContextFree/rule.cpp
@@ -138,6 +138,9 @@ rule& rule::operator<<(const item_container& item) {
     // Add this item to the list of items
     m_Items.push_back(item);
     m_ItemKeys.push_back(0);
+
+    // Any identifier we know about is for the previous version of this rule
+    m_LastGrammar = NULL;
     
     return *this;
 }
@@ -149,6 +152,10 @@ rule& rule::operator<<(const rule& rule) {
         m_Items.push_back(*sym);
         m_ItemKeys.push_back(rule.get_key(sym));
     }
+
+    // Any identifier we know about is for the previous version of this rule
+    m_LastGrammar = NULL;
+
     return *this;
 }
 
-- 
2.43.0


From bb7987d85f56428a33b796f01cd2b9f8de8410a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 17/40] fix: grammars can be copied, and do not leak their
 cached item sets

---
 TameParse/ContextFree/grammar.cpp | 18 +++++++++++++++---
 TameParse/ContextFree/grammar.h   |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f4cbff7..b62afd0 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -46,6 +46,12 @@ grammar::grammar() {
     m_EpsilonSet->insert(an_empty_item_c);
 }
 
+/// \brief Copies a grammar (the copy has its own caches)
+grammar::grammar(const grammar& copyFrom) {
+    m_EpsilonSet = new item_set(this);
+    *this = copyFrom;
+}
+
 /// \brief Destroys a grammar
 grammar::~grammar() {
     // Finished with the epsilon set
@@ -74,9 +80,11 @@ grammar& grammar::operator=(const grammar& assignFrom) {
     m_RuleForIdentifier = assignFrom.m_RuleForIdentifier;
     
     // Clear the caches for this object
-    m_CachedFirstSets.clear();
-    m_CachedFollowSets.clear();
-    m_CachedItemSets.clear();
+    clear_caches();
+
+    // The empty item might have another identifier in the grammar that was copied
+    *m_EpsilonSet = item_set(this);
+    m_EpsilonSet->insert(an_empty_item_c);
     
     // Finished
     return *this;
@@ -209,6 +217,10 @@ const item_container& grammar::item_with_identifier(int id) const {
 void grammar::clear_caches() const {
     m_CachedFirstSets.clear();
     m_CachedFollowSets.clear();
+
+    for (lr1_item_set_cache::iterator oldItemSets = m_CachedItemSets.begin(); oldItemSets != m_CachedItemSets.end(); ++oldItemSets) {
+        delete oldItemSets->second;
+    }
     m_CachedItemSets.clear();
 }
 
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 627ad86..e911dc1 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -116,6 +116,9 @@ namespace contextfree {
         /// \brief Creates an empty grammar
         grammar();
         
+        /// \brief Copy constructor
+        grammar(const grammar& copyFrom);
+        
         /// \brief Destructor
         ~grammar();
         
-- 
2.43.0


From 04fb00b173cecbeae07c64d664ada8d973b38924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 18/40] fix: FIRST sets are complete for nonterminals that
 depend on each other and for rules with nullable items

---
 TameParse/ContextFree/ebnf_items.cpp     | 34 +++++----------------
 TameParse/ContextFree/grammar.cpp        | 38 +++++++++++++++++++-----
 TameParse/ContextFree/grammar.h          |  9 ++++++
 TameParse/ContextFree/standard_items.cpp | 34 ++-------------------
 4 files changed, 50 insertions(+), 65 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a062241..a8eb87f 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -186,13 +186,8 @@ item_set ebnf_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -238,11 +233,8 @@ item_set ebnf_repeating::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -290,13 +282,8 @@ item_set ebnf_repeating_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;    
 }
@@ -354,13 +341,8 @@ item_set ebnf_alternate::first(const grammar& gram) const {
         // Get the rule
         const rule& r = **nextRule;
         
-        // Add items if the rule has a first item
-        if (r.items().size() > 0) {
-            const item_set& ruleItems = gram.first(*(r.items()[0]));
-            result.merge(ruleItems);
-        } else {
-            result.insert(the_empty_item);
-        }
+        // Add the items that can start the rule
+        result.merge(gram.first_for_rule(r));
     }
     
     return result;
diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index b62afd0..92584be 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -254,14 +254,38 @@ const item_set& grammar::first(const item_container& item) const {
     // Return the value we found if it's already in the cache
     if (found != m_CachedFirstSets.end()) return found->second;
     
-    // Not found: create an empty item set so recursive calls to this method terminate
-    found = m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
-    
-    // Ask the item for its first set, and update the cache
-    found->second = item->first(*this);
+    // The first call computes the set, other calls come from items that are used to compute it
+    bool isRecursive = !m_VisitedFirstSets.empty();
+
+    // Not found: start with an empty item set so recursive calls to this method terminate
+    item_set_map::iterator partial = m_PartialFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
+
+    // If this item was already visited in this pass, then what we know so far is the best available answer
+    if (m_VisitedFirstSets.find(item) != m_VisitedFirstSets.end()) return partial->second;
+
+    // Items can depend on each other, so a single pass might use incomplete sets: repeat until nothing changes
+    do {
+        if (!isRecursive) {
+            m_VisitedFirstSets.clear();
+            m_FirstSetsChanged = false;
+        }
+
+        // Ask the item for its first set, and update what we know so far
+        m_VisitedFirstSets.insert(pair<item_container, item_set>(item, item_set(this)));
+        if (partial->second.merge(item->first(*this))) {
+            m_FirstSetsChanged = true;
+        }
+    } while (!isRecursive && m_FirstSetsChanged);
+
+    // The caller deals with the remaining passes if this is a recursive call
+    if (isRecursive) return partial->second;
+
+    // All of the sets that we visited are complete: update the cache
+    m_CachedFirstSets.insert(m_PartialFirstSets.begin(), m_PartialFirstSets.end());
+    m_PartialFirstSets.clear();
+    m_VisitedFirstSets.clear();
     
-    // Return the newly added item (have to do another lookup as map doesn't have a replace operator)
-    return found->second;
+    return m_CachedFirstSets.find(item)->second;
 }
 
 /// \brief Computes the first set for the specified rule (or retrieves the cached version)
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index e911dc1..5806b4d 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -103,6 +103,15 @@ namespace contextfree {
         /// \brief Cached map of FIRST sets for this grammar
         mutable item_set_map m_CachedFirstSets;
         
+        /// \brief The FIRST sets found so far by a call to first() that is still in progress
+        mutable item_set_map m_PartialFirstSets;
+
+        /// \brief Items that were visited in the current pass of a call to first() that is still in progress (empty if there is none)
+        mutable item_set_map m_VisitedFirstSets;
+
+        /// \brief Set to true if any of the partial FIRST sets was extended in the current pass
+        mutable bool m_FirstSetsChanged;
+        
         /// \brief Cached map of FOLLOW sets for this grammar
         mutable item_set_map m_CachedFollowSets;
 
diff --git a/TameParse/ContextFree/standard_items.cpp b/TameParse/ContextFree/standard_items.cpp
index a311b3e..7fdc466 100644
--- a/TameParse/ContextFree/standard_items.cpp
+++ b/TameParse/ContextFree/standard_items.cpp
@@ -119,38 +119,8 @@ item_set nonterminal::first(const grammar& gram) const {
     
     // Merge in the first set for each of the initial symbols
     for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
-        // Get the items for this rule
-        const item_list& ruleItems = (*nextRule)->items();
-        
-        // Add the empty item if this is an empty rule
-        if (ruleItems.size() == 0) {
-            result.insert(an_empty_item_c);
-            continue;
-        }
-        
-        // Get the first set for the first item in this rule
-        const item_set& ruleFirst = gram.first(ruleItems[0]);
-
-        // Insert into the result
-        result.merge(ruleFirst);
-
-        if (ruleFirst.contains(an_empty_item_c)) {
-            // If there's an empty item, then merge the first sets from the later parts of the rule
-            int pos;
-            for (pos = 1; pos < (int) ruleItems.size(); ++pos) {
-                // Remove the empty item from the current set
-                result.erase(an_empty_item);
-                
-                // Get the first set for the next item
-                const item_set& nextFirst = gram.first(*(ruleItems[pos]));
-                
-                // Merge it with the current set
-                result.merge(nextFirst);
-                
-                // Stop if there's no longer an empty item
-                if (!nextFirst.contains(an_empty_item_c)) break;
-            }
-        }
+        // Anything that can start this rule can start the nonterminal (this includes the empty item if the entire rule can be empty)
+        result.merge(gram.first_for_rule(**nextRule));
     }
 
     return result;
-- 
2.43.0


From 296978570db5e06e68382ef386634e6069d4996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 19/40] fix: repeating items can be followed by another
 repetition

---
 TameParse/ContextFree/grammar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index 92584be..5541854 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -420,6 +420,11 @@ void grammar::fill_follow(const rule& rule, item_map<item_set>::type& dependenci
             depend->second.insert(rule.nonterminal());
         }
         
+        // Repeating items can be followed by another repetition
+        if (thisItem->type() == item::repeat || thisItem->type() == item::repeat_zero_or_one) {
+            followSet->second.merge(first(thisItem));
+        }
+        
         // If this item is an EBNF rule, then we need to process each of its children
         const ebnf* ebnfItem = thisItem->cast_ebnf();
         if (ebnfItem) {
-- 
2.43.0


From e38e4cbf7468a32d57afaf5d1d319360c2b0e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 20/40] fix: containers are compared with their argument by >=
 and <=

---
 TameParse/Util/container.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Util/container.h b/TameParse/Util/container.h
index 01829af..77c4a3b 100644
--- a/TameParse/Util/container.h
+++ b/TameParse/Util/container.h
@@ -153,12 +153,12 @@ namespace util {
         
         /// \brief Ordering operator
         inline bool operator>=(const container& compareTo) const {
-            return !operator<(*this);
+            return !operator<(compareTo);
         }
         
         /// \brief Ordering operator
         inline bool operator<=(const container& compareTo) const {
-            return !operator>(*this);
+            return !operator>(compareTo);
         }
         
         /// \brief Comparison operator
-- 
2.43.0


From 2a2b325090860d0645c74504963175e3c19f6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 21/40] fix: item sets with the same items are equal, even if
 items have been erased

---
 TameParse/ContextFree/item_set.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/TameParse/ContextFree/item_set.h b/TameParse/ContextFree/item_set.h
index d912abf..851c252 100644
--- a/TameParse/ContextFree/item_set.h
+++ b/TameParse/ContextFree/item_set.h
@@ -126,11 +126,11 @@ namespace contextfree {
     public:
         /// \brief Returns true if this item set is equal to another
         inline bool operator==(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (compareTo.m_MaxItem != m_MaxItem) return false;
+            // Compare the number of items first
+            if (compareTo.m_Size != m_Size) return false;
 
-            // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
+            // Compare the elements (the arrays can have different lengths if items have been erased)
+            for (int item = 0; item < m_MaxItem && item < compareTo.m_MaxItem; ++item) {
                 if (m_Items[item] != compareTo.m_Items[item]) return false;
             }
 
@@ -143,12 +143,12 @@ namespace contextfree {
 
         /// \brief Orders this set relative to another
         inline bool operator<(const item_set& compareTo) const {
-            // Compare the m_MaxItem first
-            if (m_MaxItem < compareTo.m_MaxItem) return true;
-            if (compareTo.m_MaxItem < m_MaxItem) return false;
+            // Compare the number of items first
+            if (m_Size < compareTo.m_Size) return true;
+            if (compareTo.m_Size < m_Size) return false;
 
-            // Compare the elements
-            for (int item = 0; item < m_MaxItem; ++item) {
+            // Compare the elements (the arrays can have different lengths if items have been erased)
+            for (int item = 0; item < m_MaxItem && item < compareTo.m_MaxItem; ++item) {
                 if (m_Items[item] < compareTo.m_Items[item]) return true;
                 if (m_Items[item] > compareTo.m_Items[item]) return false;
             }
-- 
2.43.0


From b74251becae1dfeb348ea8de6407c75eb5b93c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 22/40] fix: an LR(1) item is not greater than itself

---
 TameParse/Lr/lr_item.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/lr_item.h b/TameParse/Lr/lr_item.h
index 4afb849..1014e68 100644
--- a/TameParse/Lr/lr_item.h
+++ b/TameParse/Lr/lr_item.h
@@ -226,7 +226,7 @@ namespace lr {
         inline lr1_item* clone() const { return new lr1_item(*this); }
         
         inline bool operator!=(const lr1_item& compareTo) const { return !operator==(compareTo); }
-        inline bool operator>(const lr1_item& compareTo) const { return !operator<(compareTo); }
+        inline bool operator>(const lr1_item& compareTo) const { return compareTo.operator<(*this); }
         inline bool operator<=(const lr1_item& compareTo) const { return operator<(compareTo) || operator==(compareTo); }
         inline bool operator>=(const lr1_item& compareTo) const { return !operator<(compareTo) || operator==(compareTo); }
         
-- 
2.43.0


From 0e89969a921e1fd7fb4cca817ae57b84073696fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 23/40] fix: states with the same items are equal whatever
 order the items were added in

---
 TameParse/Lr/lr_state.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/TameParse/Lr/lr_state.h b/TameParse/Lr/lr_state.h
index c18cb0d..322c5b2 100644
--- a/TameParse/Lr/lr_state.h
+++ b/TameParse/Lr/lr_state.h
@@ -114,11 +114,11 @@ namespace lr {
             static comparator less_than;
             
             // Two sets are equal if their items are the same, but identifiers are allowed to be different
-            for (typename item_list::const_iterator ours = m_ItemList.begin(), theirs = compareTo.m_ItemList.begin(); 
-                 ours != m_ItemList.end() && theirs != compareTo.m_ItemList.end(); 
+            for (typename item_set::const_iterator ours = m_ItemsToIdentifier.begin(), theirs = compareTo.m_ItemsToIdentifier.begin(); 
+                 ours != m_ItemsToIdentifier.end() && theirs != compareTo.m_ItemsToIdentifier.end(); 
                  ++ours, ++theirs) {
                 // Not equal if either greater than or less that this item,
-                if (less_than(*ours, *theirs) || less_than(*theirs, *ours)) return false;
+                if (less_than(ours->first, theirs->first) || less_than(theirs->first, ours->first)) return false;
             }
             
             return true;
@@ -131,12 +131,12 @@ namespace lr {
 
             static comparator less_than;
 
-            for (typename item_list::const_iterator ours = m_ItemList.begin(), theirs = compareTo.m_ItemList.begin(); 
-                 ours != m_ItemList.end() && theirs != compareTo.m_ItemList.end();
+            for (typename item_set::const_iterator ours = m_ItemsToIdentifier.begin(), theirs = compareTo.m_ItemsToIdentifier.begin(); 
+                 ours != m_ItemsToIdentifier.end() && theirs != compareTo.m_ItemsToIdentifier.end();
                  ++ours, ++theirs) {
                 // Not equal if either greater than or less that this item,
-                if (less_than(*ours, *theirs)) return true;
-                if (less_than(*theirs, *ours)) return false;
+                if (less_than(ours->first, theirs->first)) return true;
+                if (less_than(theirs->first, ours->first)) return false;
             }
             
             // Equal if we reach here
@@ -161,7 +161,7 @@ namespace lr {
             if (!a) return true;
             if (!b) return false;
             
-            return a < b;
+            return *a < *b;
         }
         
     public:
-- 
2.43.0


From 3c98576192d3aaf05a51db136065cc2775993dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:08 +0000
Subject: [PATCH 24/40] fix: weak_symbols: use the strong symbol's action where
 the weak symbol only has weak reductions

---
 TameParse/Lr/weak_symbols.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e6b0a85..e9cce11 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -283,7 +283,7 @@ void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr
                 map<int, int>::iterator found = weakSymbols.find(sym);
                 if (found != weakSymbols.end()) {
                     found->second--;
-                    if (found->second < 0) {
+                    if (found->second <= 0) {
                         weakSymbols.erase(found);
                     }
                 }
-- 
2.43.0


From ab353bf5ca443978916c9e8bc9a5b4a1fbbe2a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:06 +0000
Subject: [PATCH 25/40] fix: parser_stack: a copied stack is linked both ways,
 so destroying the original does not free the shared stack

---
 TameParse/Lr/parser_stack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Lr/parser_stack.h b/TameParse/Lr/parser_stack.h
index 4e238fb..351ea58 100644
--- a/TameParse/Lr/parser_stack.h
+++ b/TameParse/Lr/parser_stack.h
@@ -264,6 +264,7 @@ namespace lr {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
             m_Stack->m_RootReference = this;
+            if (m_Next) m_Next->m_Last = this;
         }
         
         /// \brief Assignment operator
-- 
2.43.0


From 9c38e94387aa1c1db8913875c66e42906b4184ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 26/40] fix: parser: can_reduce works for the lookahead, and at
 the end of the input

---
 TameParse/Lr/parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1cf83f3..6155a5c 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -637,7 +637,8 @@ namespace lr {
             /// be resolved by a LR(1) parser, this will disambiguate the grammar (making it possible to choose
             /// only the action that allows the parser to continue)
             inline bool can_reduce(const lexeme_container& lexeme) {
-                return can_reduce<terminal_fetcher>(lexeme->matched(), 0, std::stack<int>());
+                if (lexeme.item() == NULL) return can_reduce_nonterminal(m_Tables->end_of_input());
+                return can_reduce<terminal_fetcher>(lexeme->matched(), 0, std::stack<int>(), m_Stack);
             }
 
             /// \brief Returns true if a reduction of the specified terminal symbol will result in it being shifted
-- 
2.43.0


From 1a9190c3470abddae644da9db4c4265cc65acf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 27/40] fix: parser: can_reduce stops at the end of the actions
 of the state it reduces to

---
 TameParse/Lr/parser_state.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 9d972c2..3f8930e 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -479,7 +479,6 @@ namespace lr {
                     fake_reduce(act, stackPos, pushed, underlyingStack);
                     
                     // Get the new state
-                    int state;
                     if (!pushed.empty()) {
                         // (This will always happen unless there's a bug in the parser tables)
                         state = pushed.top();
-- 
2.43.0


From 393efec635eb5a668b4cd50a926e77d0ef0cae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 28/40] fix: parser: assigning a parser copies its tables
 instead of sharing them

---
 TameParse/Lr/parser.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 6155a5c..9a77b05 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -172,6 +172,17 @@ namespace lr {
             }
         }
 
+        /// \brief Assignment
+        parser& operator=(const parser& copyFrom) {
+            if (&copyFrom == this) return *this;
+
+            if (m_OwnsTables) delete m_ParserTables;
+
+            m_OwnsTables    = copyFrom.m_OwnsTables;
+            m_ParserTables  = copyFrom.m_OwnsTables ? new parser_tables(*copyFrom.m_ParserTables) : copyFrom.m_ParserTables;
+            return *this;
+        }
+
         /// \brief Destructor
         virtual ~parser() { 
             if (m_OwnsTables) {
-- 
2.43.0


From 379986d2348752e19ba13869c7733081e817a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:54 +0000
Subject: [PATCH 29/40] fix: parser_tables: a copy always owns the tables it
 allocates

---
 TameParse/Lr/parser_tables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Lr/parser_tables.cpp b/TameParse/Lr/parser_tables.cpp
index 36b2ca2..bd64ed4 100644
--- a/TameParse/Lr/parser_tables.cpp
+++ b/TameParse/Lr/parser_tables.cpp
@@ -260,7 +260,7 @@ parser_tables::parser_tables(const parser_tables& copyFrom)
 , m_NumRules(copyFrom.m_NumRules)
 , m_EndOfInput(copyFrom.m_EndOfInput)
 , m_EndOfGuard(copyFrom.m_EndOfGuard)
-, m_DeleteTables(copyFrom.m_DeleteTables)
+, m_DeleteTables(true)
 , m_NumWeakToStrong(copyFrom.m_NumWeakToStrong) {
     // Allocate the action tables
     m_TerminalActions       = new action*[m_NumStates+1];
@@ -339,7 +339,7 @@ parser_tables& parser_tables::operator=(const parser_tables& copyFrom) {
     m_NumRules          = copyFrom.m_NumRules;
     m_EndOfInput        = copyFrom.m_EndOfInput;
     m_EndOfGuard        = copyFrom.m_EndOfGuard;
-    m_DeleteTables      = copyFrom.m_DeleteTables;
+    m_DeleteTables      = true;
     m_NumWeakToStrong   = copyFrom.m_NumWeakToStrong;
 
     // Allocate the action tables
-- 
2.43.0


From 03e133d10f856bfc6c7cb6cc6bdfabc27fd1fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 30/40] fix: the items and rules made while building a parser
 are destroyed with it

---
 TameParse/ContextFree/ebnf_items.cpp | 8 ++++----
 TameParse/ContextFree/item.cpp       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a8eb87f..081c16b 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -87,7 +87,7 @@ ebnf::~ebnf() {
 void ebnf::add_rule(const rule& newRule) {
     item_container ourselves(this, false);
 
-    m_Rules->push_back(new rule(newRule, ourselves));
+    m_Rules->push_back(rule(newRule, ourselves));
 }
 
 /// \brief Compares this item to another. Returns true if they are the same
@@ -398,8 +398,8 @@ void ebnf_alternate::closure(const lr::lr1_item& item, lr::lr1_item_set& state,
 
                     // Other rules get rewritten with this item as the target
                     else {
-                        rule_container rewrittenRule(new rule(**ruleToFlatten, ourselves));
-                        insert_closure_item(lr1_item_container(new lr1_item(&gram, rewrittenRule, 0, follow)), state, gram);
+                        rule_container rewrittenRule(new rule(**ruleToFlatten, ourselves), true);
+                        insert_closure_item(lr1_item_container(new lr1_item(&gram, rewrittenRule, 0, follow), true), state, gram);
                     }
                 }
             }
@@ -407,7 +407,7 @@ void ebnf_alternate::closure(const lr::lr1_item& item, lr::lr1_item_set& state,
 
         // All other rules are passed through untouched
         else {
-            insert_closure_item(lr1_item_container(new lr1_item(&gram, *nextRule, 0, follow)), state, gram);
+            insert_closure_item(lr1_item_container(new lr1_item(&gram, *nextRule, 0, follow), true), state, gram);
         }
     }
 }
diff --git a/TameParse/ContextFree/item.cpp b/TameParse/ContextFree/item.cpp
index d5de756..bbdd4e2 100644
--- a/TameParse/ContextFree/item.cpp
+++ b/TameParse/ContextFree/item.cpp
@@ -238,7 +238,7 @@ void item::cache_closure(const lr::lr1_item& it, lr::lr1_item_set& state, const
             newItemLookahead.merge(follow);
             
             // Add the final item to the state
-            lr1_item_container newItem(new lr1_item((*cachedItem)->get_lr0_item(), newItemLookahead));
+            lr1_item_container newItem(new lr1_item((*cachedItem)->get_lr0_item(), newItemLookahead), true);
             state.insert(newItem);
         } else {
             // Can just copy this item into the final state
-- 
2.43.0


From 61cb07122059c565494b0cd623e9530c8b52a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 31/40] fix: symbol tables free and copy their lowest level

---
 TameParse/Dfa/symbol_table.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index 85d6ec9..66ad025 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -266,6 +266,22 @@ namespace dfa {
             Symbols         = NULL;
         }
         
+        /// \brief Creates a copy of an existing symbol level
+        symbol_level(const symbol_level& copyFrom) {
+            DefaultSymbol   = copyFrom.DefaultSymbol;
+            Symbols         = NULL;
+            
+            if (copyFrom.Symbols) {
+                Symbols = new int[c_MaxIndex];
+                for (int index=0; index < c_MaxIndex; ++index) Symbols[index] = copyFrom.Symbols[index];
+            }
+        }
+        
+        /// \brief Destructor
+        ~symbol_level() {
+            delete[] Symbols;
+        }
+        
         /// \brief Sets all the symbols in the specified range to the specified symbol. The range must overlap this item.
         void add_range(int base, const range<int>& range, int symbol) {
             // Work out the initial index in this table
@@ -361,6 +377,10 @@ namespace dfa {
             // Return the new table
             return newTable;
         }
+        
+    private:
+        /// \brief Disabled assignment
+        symbol_level<int, mask, shift>& operator=(const symbol_level<int, mask, shift>& assignFrom);
     };
     
     ///
-- 
2.43.0


From 517e6c24225436028d42200e63441af827a2b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 32/40] fix: a weak symbol whose strong equivalent is ignored
 is ignored as well

---
 TameParse/Compiler/lr_parser_stage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index ac3aba5..6d28d7a 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -327,12 +327,13 @@ void lr_parser_stage::compile() {
     // Add the weak symbols and ignore items actions
     // TODO: it might be good to have a way to supply extra rewriters from other stages instead of just having them
     // hardcoded here. This is good enough for now, though.
+    // The ignore actions come first, so that a weak symbol whose strong equivalent is ignored can be ignored as well
+    m_Parser->add_rewriter(ignoreContainer);
     m_Parser->add_rewriter(action_rewriter_container(m_LexerCompiler->weak_symbols(), false));
     m_Parser->add_rewriter(action_rewriter_container(new conflict_attribute_rewriter(&m_Language->get_rule_item_data())));
     if (!cons().get_option(L"enable-lr1-resolver").empty()) {
         m_Parser->add_rewriter(action_rewriter_container(new lr1_rewriter()));
     }
-    m_Parser->add_rewriter(ignoreContainer);
 
     // Build the parser
     m_Parser->complete_parser();
-- 
2.43.0


From a4405e0f8916957a26c2f06fd66bbcf4f35383c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 33/40] fix: splitting overlapping symbol sets: a range that
 ends before the next one starts does not extend to it

---
 TameParse/Dfa/remapped_symbol_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 585316c..6b1f3fe 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -128,9 +128,10 @@ static void add_set(sets_for_range& sets, const symbol_set& symbols, int identif
                 break;
             }
             
-            // If there's a gap between the remaining set and the current position, then fill it in
+            // If there's a gap between the remaining set and the current position, then fill it in (the remaining set might end in the gap)
             if (firstGreaterThan->first.lower() > remaining.lower()) {
                 int newUpper = firstGreaterThan->first.lower();
+                if (newUpper > remaining.upper()) newUpper = remaining.upper();
                 
                 // Insert a value to fill the gap
                 firstGreaterThan = sets.insert(firstGreaterThan, sets_for_range::value_type(symbol_range(remaining.lower(), newUpper), justUs));
-- 
2.43.0


From ad0eff96cb8b15ebdc1c79ea4109b5a90b4ecb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 34/40] fix: generated lexers have an entry for every state,
 including those with no transitions

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 435087b..750f191 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -519,15 +519,23 @@ void output_cplusplus::source_lexer_state_machine() {
     // Finish off the table
     *m_SourceFile << "\n    };\n";
 
-    // Add a final state to point to the end of the array
-    stateToEntryOffset.push_back(entryPos);
+    // Count the states (there is one action per state)
+    int numStates = 0;
+    for (lexer_state_action_iterator act = begin_lexer_state_action(); act != end_lexer_state_action(); ++act) {
+        ++numStates;
+    }
+
+    // Later states have no transitions: add these, and a final state to point to the end of the array
+    while ((int)stateToEntryOffset.size() <= numStates) {
+        stateToEntryOffset.push_back(entryPos);
+    }
 
     // Write out the rows table
-    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size()-1 << "] = {\n        ";
+    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size() << "] = {\n        ";
 
     // Write the actual rows
     bool first = true;
-    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end()-1; ++offset) {
+    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end(); ++offset) {
         // Commas between entries
         if (!first) *m_SourceFile << ", ";
 
@@ -565,11 +573,11 @@ void output_cplusplus::source_lexer_state_machine() {
 
     // Create a state machine
     *m_SourceFile << "\ntypedef dfa::state_machine_tables<wchar_t, dfa::hard_coded_symbol_table<wchar_t, 2> > lexer_state_machine;\n";
-    *m_SourceFile << "static const lexer_state_machine s_StateMachine(s_SymbolMap, s_LexerStates, " << stateToEntryOffset.size()-1 << ");\n";
+    *m_SourceFile << "static const lexer_state_machine s_StateMachine(s_SymbolMap, s_LexerStates, " << numStates << ");\n";
 
     // Create the lexer itself
     *m_SourceFile << "\ntypedef dfa::dfa_lexer_base<const lexer_state_machine&, 0, 0, false, const lexer_state_machine&> lexer_definition;\n";
-    *m_SourceFile << "static lexer_definition s_LexerDefinition(s_StateMachine, " << stateToEntryOffset.size()-1 << ", s_AcceptingStates);\n";
+    *m_SourceFile << "static lexer_definition s_LexerDefinition(s_StateMachine, " << numStates << ", s_AcceptingStates);\n";
 
     // Finally, the lexer class itself
     *m_SourceFile << "\nconst dfa::lexer " << get_identifier(m_ClassName, false) << "::lexer(&s_LexerDefinition, false);\n";
-- 
2.43.0


From abcad00e2373b83d6fae1d988c1af95ae8da94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 35/40] fix: generated parsers set the position of empty lists

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 750f191..30da048 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1627,8 +1627,10 @@ void output_cplusplus::source_reduce_actions() {
             if (repeating) {
                 // The constructor is delcared for the item that contains the repetition
                 if (!hasConstructor && nonterm->item->type() == item::repeat_zero_or_one) {
-                    // This is the empty rule in a zero-or-more repetition: create an empty item
-                    *m_SourceFile << "        return node(new " << ntName << "());\n";
+                    // This is the empty rule in a zero-or-more repetition: create an empty item at the position of the lookahead
+                    *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(new " << ntName << "());\n";
+                    *m_SourceFile << "        const_cast<" << ntName << "*>(list.item())->set_position(lookaheadPosition);\n";
+                    *m_SourceFile << "        return list.cast_to<syntax_node>();\n";
                 } else {
                     // Get the node where the definition is being built up
                     *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(";
-- 
2.43.0


From bbf8e16e9f6c013f5d87f1e082a898e8f93b028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 36/40] fix: fields of generated syntax tree nodes have
 different names when they have different types or names that become the same
 identifier

---
 TameParse/Compiler/OutputStages/cplusplus.cpp |  6 ++++
 TameParse/Compiler/OutputStages/cplusplus.h   |  3 ++
 TameParse/Compiler/output_stage.cpp           | 35 +++++++++++++++----
 TameParse/Compiler/output_stage.h             |  5 +++
 4 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 30da048..c3254a4 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -220,6 +220,12 @@ bool output_cplusplus::name_is_valid(const std::wstring& name) {
     return true;
 }
 
+/// \brief Converts a name to the identifier that will be used for it in the output
+std::wstring output_cplusplus::identifier_for_name(const std::wstring& name) {
+    string identifier = get_identifier(name, false);
+    return wstring(identifier.begin(), identifier.end());
+}
+
 //              ================
 //               General output
 //              ================
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index 7908d0d..b41d061 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -85,6 +85,9 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Converts a name to the identifier that will be used for it in the output
+        virtual std::wstring identifier_for_name(const std::wstring& name);
+
     private:
         /// \brief Writes out the terminal symbols definitions to the header file
         void header_terminal_symbols();
diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index 3a82338..b6fd403 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -436,6 +436,12 @@ bool output_stage::name_is_valid(const std::wstring& name) {
     return !name.empty();
 }
 
+/// \brief Converts a name to the identifier that will be used for it in the output
+std::wstring output_stage::identifier_for_name(const std::wstring& name) {
+    // Names are used as they are by default
+    return name;
+}
+
 /// \brief Generates the rules for each nonterminal
 void output_stage::generate_ast_rules() {
     // Maps nonterminals to their corresponding rules
@@ -468,6 +474,9 @@ void output_stage::generate_ast_rules() {
         // Set it up
         thisNt.nonterminalId = nonterminalId;
 
+        /// The items that the names used in the rules for this nonterminal refer to
+        map<wstring, int> itemForName;
+
         for (rule_list::iterator nextRule = rulesForNonterminal[nonterminalId].begin(); nextRule != rulesForNonterminal[nonterminalId].end(); ++nextRule) {
             // Get the identifier for this rule
             int ruleId = gram().identifier_for_rule(*nextRule);
@@ -492,11 +501,26 @@ void output_stage::generate_ast_rules() {
                     baseName = name_for_item(*ruleItem);
                 }
 
+                // Set the 'EBNF repetition' flag
+                bool isEbnfRepeat = false;
+                if (isRepeating && ruleItem == (*nextRule)->begin() && (**ruleItem) == *(*nextRule)->nonterminal()) {
+                    isEbnfRepeat = true;
+                }
+
                 // Use the base name as the default name
                 wstring uniqueName  = baseName;
                 int     offset      = 1;
+                int     itemId      = gram().identifier_for_item(*ruleItem);
+
+                for (;;) {
+                    // A name can be used once per rule, and must refer to the same item in all of the rules for the nonterminal
+                    wstring                         identifier  = identifier_for_name(uniqueName);
+                    map<wstring, int>::iterator     usedFor     = itemForName.find(identifier);
+
+                    if (name_is_valid(uniqueName) && usedNames.find(identifier) == usedNames.end() && (usedFor == itemForName.end() || usedFor->second == itemId)) {
+                        break;
+                    }
 
-                while (usedNames.find(uniqueName) != usedNames.end() || !name_is_valid(uniqueName)) {
                     // Append _2, etc if this name has already been encountered in this rule or is invalid
                     offset++;
 
@@ -508,12 +532,11 @@ void output_stage::generate_ast_rules() {
                 }
 
                 // Remember the unique name
-                usedNames.insert(uniqueName);
+                usedNames.insert(identifier_for_name(uniqueName));
 
-                // Set the 'EBNF repetition' flag
-                bool isEbnfRepeat = false;
-                if (isRepeating && ruleItem == (*nextRule)->begin() && (**ruleItem) == *(*nextRule)->nonterminal()) {
-                    isEbnfRepeat = true;
+                // Guards and the repeating item of a closure can be used without declaring anything
+                if (!isEbnfRepeat && (*ruleItem)->type() != item::guard) {
+                    itemForName[identifier_for_name(uniqueName)] = itemId;
                 }
 
                 // Add a new item for this rule
diff --git a/TameParse/Compiler/output_stage.h b/TameParse/Compiler/output_stage.h
index a0b6bee..d35ef37 100644
--- a/TameParse/Compiler/output_stage.h
+++ b/TameParse/Compiler/output_stage.h
@@ -159,6 +159,11 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Converts a name to the identifier that will be used for it in the output
+        ///
+        /// Names that have the same identifier are treated as the same name when generating unique names.
+        virtual std::wstring identifier_for_name(const std::wstring& name);
+
     protected:
         // Functions that represent various steps of the output of a language.
         // These are intended to make it easy to write out a file in the specified language.
-- 
2.43.0


From 1a1d6aae7c617183b460036ac647bb69bb29d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 37/40] fix: generated parsers find the position of items that
 begin or end with another list

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index c3254a4..a0cc99a 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1366,9 +1366,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
-                    continue;
-                }
+                if (ruleItem->isEbnfRepetition) continue;
 
                 // This item has a variable, so we can return its first position as the position of this item
                 foundValid = true;
@@ -1408,9 +1406,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
-                    continue;
-                }
+                if (ruleItem->isEbnfRepetition) continue;
 
                 // This item has a variable, so we can return its final position as the position of this item
                 foundValid = true;
-- 
2.43.0


From c7833e64447260cbe80eb8aab60aabacf99523d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:10 +0000
Subject: [PATCH 38/40] fix: a replaced lexer symbol is only weak or ignored if
 its new definition is

---
 TameParse/Compiler/language_stage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index f5e445c..df4c4c8 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -274,6 +274,10 @@ void language_stage::compile() {
                                 // Clear the existing symbol
                                 m_TerminalDefinition.erase(symId);
                                 m_Lexer.remove_definition((*lexerItem)->identifier());
+
+                                // The new definition decides whether or not the symbol is weak or ignored
+                                m_WeakSymbols.erase(symId);
+                                m_IgnoredSymbols.erase(symId);
                             }
                         }
                     } else {
-- 
2.43.0


From def3e60f88df487b2eb078e08016f361ead687dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:06 +0000
Subject: [PATCH 39/40] fix: a language that inherits from itself is reported
 as an error

---
 TameParse/Compiler/language_stage.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index df4c4c8..f537cbd 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -95,11 +95,24 @@ void language_stage::compile() {
         const wstring& inheritFrom = m_Language->inherits().front();
 
         // Fetch the language from the importer
-        // TODO: inheritance loops should produce an error (other than a stack overflow)
         const language_block* inheritBlock = m_Import->language_with_name(inheritFrom);
 
-        // Report an error if the language is not defined
-        if (!inheritBlock) {
+        // Follow the chain of inherited languages to check that it comes to an end
+        set<wstring>            inheritedNames;
+        const language_block*   ancestor = m_Language;
+
+        while (ancestor && !ancestor->inherits().empty() && inheritedNames.insert(ancestor->identifier()).second) {
+            ancestor = m_Import->language_with_name(ancestor->inherits().front());
+        }
+
+        bool isLoop = ancestor && !ancestor->inherits().empty();
+
+        // Report an error if the language is not defined, or if it inherits from itself
+        if (isLoop) {
+            wstringstream msg;
+            msg << L"Inheritance loop: '" << ancestor->identifier() << L"' inherits from itself";
+            cons().report_error(error(error::sev_error, filename(), L"INHERITANCE_LOOP", msg.str(), m_Language->start_pos()));
+        } else if (!inheritBlock) {
             wstringstream msg;
             msg << L"Unable to find language '" << inheritFrom << "'";
             cons().report_error(error(error::sev_error, filename(), L"CANT_FIND_LANGUAGE", msg.str(), m_Language->start_pos()));
-- 
2.43.0


From 9206f5635da1bed246e1ea4691c3cc4fcf61d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:06 +0000
Subject: [PATCH 40/40] fix: a definition file that cannot be parsed is closed

---
 TameParse/Compiler/parser_stage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Compiler/parser_stage.cpp b/TameParse/Compiler/parser_stage.cpp
index 7c67097..c783d4d 100644
--- a/TameParse/Compiler/parser_stage.cpp
+++ b/TameParse/Compiler/parser_stage.cpp
@@ -54,6 +54,7 @@ void parser_stage::compile() {
     // Report an error if the file could not be opened
     if (!fileStream || !fileStream->good()) {
         cons().report_error(error(error::sev_fatal, filename(), L"CANT_OPEN_FILE", L"Cannot read from file", position(-1, -1, -1)));
+        delete fileStream;
         return;
     }
     
@@ -76,6 +77,7 @@ void parser_stage::compile() {
             // Whoops, couldn't report the syntax error
             cons().report_error(error(error::sev_bug, filename(), L"BUG_CANT_REPORT_SYNTAX", L"Unknown syntax error", position(-1, -1, -1)));
         }
+        delete fileStream;
         return;
     }
     
-- 
2.43.0

