From 49f728db2e6b9d1372c3a27b826f097f01214656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 01/40] fix: regular expression repetitions leaked into the
 neighbouring items

The epsilon transitions added for '*', '+' and '?' reused states shared with the
surrounding items, so a*b* matched 'ba', (a*|b)c matched 'abc' and (ab+)? matched
'b'. Alternatives at the top level of an expression also always restarted at
state 0, even when the expression was added to another state.
---
 TameParse/Dfa/ndfa_regex.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7291232..aec807c 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -178,6 +178,9 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     // Create an epsilon transform to an initial state for this regex
     cons >> epsilon();
     
+    // Alternatives at the top level of this regex all begin at this state
+    cons.push();
+    
     // Compile until we reach the end of the regex
     symbol_string::const_iterator pos = regex.begin();
     symbol_string::const_iterator end = regex.end();
@@ -194,6 +197,7 @@ int ndfa_regex::add_regex(builder& cons, const symbol_string& regex) {
     
     // Compile the end of the expression
     compile(end, end, cons);
+    cons.pop();
     
     // Return the final state
     return ((state)cons).identifier();
@@ -224,6 +228,9 @@ void ndfa_regex::define_expression_literal(const symbol_string& name, const symb
 /// Subclasses can override this to extend the grammar accepted by the regular expression.
 /// This class should update the supplied iterator and NDFA constructor object with the position of the next item.
 ///
+/// Every item begins at a state of its own and every repeated item ends at a state of its own. This means that the epsilon
+/// transitions used to skip or repeat an item can't be used to get in to or out of the items surrounding it.
+///
 void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string::const_iterator& end, builder& cons) {
     // Don't process the final character, but rejoin if there's an or section in effect
     if (pos == end) {
@@ -235,6 +242,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
     switch (*pos) {
         case '(':           // Group start
             // Start a new bracketed section by pushing the current state
+            cons >> epsilon();
             cons.push();
             break;
             
@@ -262,8 +270,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state follows the current state (and preserve the 'previous' state)
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
 
@@ -277,8 +287,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(current);
             cons >> previous >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state follows the current state (and preserve the 'previous' state)
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
             
@@ -292,13 +304,16 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons.goto_state(previous);
             cons >> current >> epsilon();
             
-            // Final state is the current state (and preserve the 'previous' state)
-            cons.goto_state(current, previous);
+            // Final state follows the current state (and preserve the 'previous' state)
+            cons.goto_state(current);
+            cons >> epsilon();
+            cons.goto_state(cons.current_state(), previous);
             break;
         }
 
         case '.':
             // Any symbol
+            cons >> epsilon();
             cons >> symbol_set::symbol_range(0, 0x7fffffff);
             break;
             
@@ -352,6 +367,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             }
             
             // Append the transition
+            cons >> epsilon();
             cons >> syms;
             break;
         }
@@ -370,6 +386,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             }
 
             // Compile this expression
+            cons >> epsilon();
             cons.push();
             compile_expression(expr, cons);
             cons.pop();
@@ -380,6 +397,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             // Quoted symbol (same as default behaviour, explicit case is here to make it clear overriding this is incorrect)
         default:
             // Most characters just go through unchanged
+            cons >> epsilon();
             cons >> symbol_for_sequence(pos, end);
             break;
     }
-- 
2.43.0


From 5b244c229319e2c28b5a0054a357a5ba4517fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 02/40] fix: DFA compaction mixed accepting and non-accepting
 states

States split off while refining the partition were added to the last existing
set rather than to the newly created one, so the compacted DFA could accept
different strings from the original (a|[ab]x accepted 'b').
---
 TameParse/Dfa/ndfa_transformations.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index a229064..a0c2ceb 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -323,7 +323,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
             
             if (existingState == stateForActions.end()) {
                 // Create a new state
-                targetState = (int) newStates.size()-1;
+                targetState = (int) newStates.size();
                 newStates.push_back(state_set());
             } else {
                 // Add to the existing state
@@ -395,7 +395,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
                 if (splitStateId == -1) {
                     // Assign a new state
                     changed         = true;
-                    splitStateId    = (int) newStates.size()-1;
+                    splitStateId    = (int) newStates.size();
                     newStates.push_back(state_set());
                 }
                 
@@ -415,6 +415,13 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
     
     // Build the final state machine from the result
 
+    // Empty states are left out, so assign the final state identifiers by counting only the states that are in use
+    vector<int> finalStateId;
+    int         numFinalStates = 0;
+    for (int newStateId = 0; newStateId < (int) newStates.size(); ++newStateId) {
+        finalStateId.push_back(newStates[newStateId].empty() ? -1 : numFinalStates++);
+    }
+
     // Build the transitions and accepting actions
     state_list*                 states      = new state_list();
     symbol_map*                 symbolMap   = new symbol_map(*m_Symbols);
@@ -424,7 +431,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         // Ignore empty states
         if (newStates[newStateId].empty()) continue;
         
-        state* newState = new state(newStateId);
+        state* newState = new state(finalStateId[newStateId]);
         states->push_back(newState);
         
         // Add the transitions for this state: we only need a single template state as the mapped transitions for each symbol
@@ -434,7 +441,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         
         for (state::iterator originalTransit = templateState.begin(); originalTransit != templateState.end(); ++originalTransit) {
             int symbolSetId = originalTransit->symbol_set();
-            int targetState = oldToNew[originalTransit->new_state()];
+            int targetState = finalStateId[oldToNew[originalTransit->new_state()]];
             
             newState->add(transition(symbolSetId, targetState));
         }
@@ -442,7 +449,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
         // Copy the accept actions from the template state
         // TODO: if firstAction is set, then only copy the 'most important' action
         const accept_action_list&   actions         = actions_for_state(templateStateId);
-        accept_action_list&         targetActions   = (*accept)[newStateId];
+        accept_action_list&         targetActions   = (*accept)[finalStateId[newStateId]];
         for (accept_action_list::const_iterator act = actions.begin(); act != actions.end(); ++act) {
             targetActions.push_back((*act)->clone());
         }
-- 
2.43.0


From e6b3d48c627c895b6f4e3a3180f28e02854537a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 03/40] fix: generated lexers did not recognise symbols above
 0xff

The lowest level of the hard-coded symbol table compared the whole symbol,
rather than its low byte, with the bounds of the table.
---
 TameParse/Dfa/hard_coded_symbol_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/hard_coded_symbol_table.h b/TameParse/Dfa/hard_coded_symbol_table.h
index bc9e724..f34d6ea 100644
--- a/TameParse/Dfa/hard_coded_symbol_table.h
+++ b/TameParse/Dfa/hard_coded_symbol_table.h
@@ -70,10 +70,10 @@ namespace dfa {
         int highest = lowHigh>>8;
         
         // Return the default value if the symbol is out of range
-        if ((int) symbol < lowest || (int) symbol >= highest) return table[offset + 0];
+        int pos         = ((unsigned int) symbol&0xff);
+        if (pos < lowest || pos >= highest) return table[offset + 0];
         
         // Look up the symbol set
-        int pos         = ((unsigned int) symbol&0xff);
         int symbolSet   = table[offset + 2 + (pos - lowest)];
         
         // Use the default symbol if the offset is -1
-- 
2.43.0


From ae31397b9c27d00914e890c9f2b436c134d74801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 04/40] fix: surrogate pair ranges spanning several high
 surrogates

The low surrogates run from 0xdc00 to 0xdfff: the transitions for the first and
last high surrogate in a range used 0xd800 and 0xdc00 as their limits.
---
 TameParse/Dfa/ndfa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index 851c1f7..bad521b 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -241,14 +241,14 @@ static void add_surrogate_transition(const range<int>& surrogateRange, int curre
         nfa->add_transition(currentState, range<int>(surrogateLower.first, surrogateLower.first+1), tmpState1);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xdc00), targetState);
+        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xe000), targetState);
 
         // ... do the same for the 'upper' set of symbols
         int tmpState2 = nfa->add_state();
         nfa->add_transition(currentState, range<int>(surrogateHigher.first, surrogateHigher.first+1), tmpState2);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState2, range<int>(0xd800, surrogateHigher.second+1), targetState);
+        nfa->add_transition(tmpState2, range<int>(0xdc00, surrogateHigher.second+1), targetState);
 
         // If there's a middle range, then add transitions for that as well
         if (surrogateHigher.first-1 > surrogateLower.first) {
-- 
2.43.0


From 0dcc2b776fef96e61aac3f8a6633a5a32f2271de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 05/40] fix: position offset did not advance over newline
 characters other than LF

---
 TameParse/Dfa/position.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/position.h b/TameParse/Dfa/position.h
index 4c3c80b..d20fa28 100644
--- a/TameParse/Dfa/position.h
+++ b/TameParse/Dfa/position.h
@@ -174,6 +174,7 @@ namespace dfa {
                     break;
                     
                 case 0x0d:              // CR: Carriage Return
+                    m_CurrentPosition.increment_offset();
                     m_CurrentPosition.newline();
                     m_SeenReturn = true;
                     break;
@@ -183,6 +184,7 @@ namespace dfa {
                 case 0x85:              // NEL: NExt Line
                 case 0x2028:            // LS: Line Separator
                 case 0x2029:            // PS: Paragraph Separator
+                    m_CurrentPosition.increment_offset();
                     m_CurrentPosition.newline();
                     m_SeenReturn = false;
                     break;
-- 
2.43.0


From bde851aea18c7d1cf4cd6b410753511dd002d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 06/40] fix: symbol ranges ending at a 256-symbol boundary hid
 the next block

add_range() treated the upper bound of the range as inclusive and created an
empty table for the block following the range, which then hid the default symbol
assigned to that block by a later range (and couldn't be written as a hard-coded
table).
---
 TameParse/Dfa/symbol_table.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index ee84c40..9c55ea4 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -116,6 +116,8 @@ namespace dfa {
                 return;
             }
             
+            // The last entry affected by this range is the one containing its final symbol (the upper bound is exclusive)
+            endIndex = (range.upper() - base - 1) >> shift;
             if (endIndex > c_MaxIndex-1) endIndex = c_MaxIndex-1;
             
             // Create the symbol set if needed
-- 
2.43.0


From bafdc7dfd59a1337c86806bb378f7be04ee48133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 07/40] fix: case conversion of ranges starting in the middle
 of a map entry

Symbols following the end of the entry were converted as if they were part of it.
---
 TameParse/Util/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/unicode.cpp b/TameParse/Util/unicode.cpp
index c834673..de4c001 100644
--- a/TameParse/Util/unicode.cpp
+++ b/TameParse/Util/unicode.cpp
@@ -92,7 +92,7 @@ static symbol_set convert_range(const symbol_range& range, const map_entry* map,
             int initialChar = curItem->map_to + (lowerChar - curItem->lower);
 
             // The number of characters to map
-            int numChars = curItem->upper - curItem->lower;
+            int numChars = curItem->upper - lowerChar;
             if (numChars > upperChar - lowerChar) {
                 numChars = upperChar - lowerChar;
             }
-- 
2.43.0


From 99ed203b8e18a6d0ee0506dfa08dc40fa4f30a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 08/40] fix: decoding of multi-byte UTF-8 characters

The number of bytes in a character was chosen by examining the (uninitialised)
target instead of the first byte, and 4 byte characters used the second byte
twice. Four byte encodings of values below 0x10000 are now treated as bad
characters instead of producing an arbitrary surrogate pair.
---
 TameParse/Util/utf8reader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 92c8fa7..1761e06 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -95,7 +95,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
     }
 
     // Work out how many bytes are in the complete character
-    else if ((target & 0xe0) == 0xc0) {
+    else if ((firstChar & 0xe0) == 0xc0) {
         // Begins 110xxxx (0x80 - 0x7ff)
 
         // Read the remaining characters
@@ -111,7 +111,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
-    } else if ((target & 0xf0) == 0xe0) {
+    } else if ((firstChar & 0xf0) == 0xe0) {
         // Begins 1110xxxx (0x800 - 0xffff)
 
         // Read the remaining characters
@@ -128,7 +128,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
-    } else if ((target & 0xf8) == 0xf0) {
+    } else if ((firstChar & 0xf8) == 0xf0) {
         // Begins 11110000 (0x10000 - 0x1fffff)
 
         // Read the remaining characters
@@ -144,10 +144,10 @@ utf8reader& utf8reader::get(wchar_t& target) {
         }
 
         // Construct the UCS-4 character
-        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (secondChar&0x3f);
+        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
-        // Must be less than 0x110000 to be a valid surrogate pair
-        if (ucs4 >= 0x110000) {
+        // Must be at least 0x10000 and less than 0x110000 to be a valid surrogate pair
+        if (ucs4 < 0x10000 || ucs4 >= 0x110000) {
             m_BadUTF8   = true;
             target      = 0;
             return *this;
-- 
2.43.0


From f8cd1f1ce8a7dacf198e51336752c895594aa988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:05 +0000
Subject: [PATCH 09/40] fix: splitting overlapping symbol sets could extend a
 range past its end

When the rest of a range lay entirely in front of the next known range, the gap
was filled up to the start of that range rather than to the end of the range
being added. This added symbols to sets that did not contain them, and could loop
forever.
---
 TameParse/Dfa/remapped_symbol_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 7b97f3b..2cd5935 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -121,8 +121,8 @@ static void add_set(sets_for_range& sets, const symbol_set& symbols, int identif
         justUs.insert(identifier);
 
         while (remaining.upper() != remaining.lower()) {
-            // If we're at the end, we can just add the remaining set and stop
-            if (firstGreaterThan == sets.end()) {
+            // If we're at the end, or past the end of the range, we can just add the remaining set and stop
+            if (firstGreaterThan == sets.end() || firstGreaterThan->first.lower() >= remaining.upper()) {
                 sets[remaining] = justUs;
                 break;
             }
-- 
2.43.0


From 5bd2aa7a79ef7be2027b8191995b58d7943ae181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 10/40] fix: copying a remapped symbol map lost its symbol sets

---
 TameParse/Dfa/remapped_symbol_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 2cd5935..cb47104 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -45,7 +45,8 @@ remapped_symbol_map::remapped_symbol_map() {
 
 /// \brief Copy constructor
 remapped_symbol_map::remapped_symbol_map(const remapped_symbol_map& copyFrom) 
-: m_OldToNew(copyFrom.m_OldToNew) {
+: symbol_map(copyFrom)
+, m_OldToNew(copyFrom.m_OldToNew) {
 }
 
 /// \brief Finds or adds an identifier for the specified symbol, adding the specified set of new symbols as the new symbols
-- 
2.43.0


From 6be8c8117f1cc9416cc1cfe0badfa47369ce0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 11/40] fix: lexers treated characters above 0x7f in char
 streams as negative symbols

---
 TameParse/Dfa/basic_lexer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/basic_lexer.h b/TameParse/Dfa/basic_lexer.h
index 99abafa..a25f5ee 100644
--- a/TameParse/Dfa/basic_lexer.h
+++ b/TameParse/Dfa/basic_lexer.h
@@ -96,7 +96,8 @@ namespace dfa {
                 if (!m_Stream.good()) {
                     result = symbol_set::end_of_input;
                 } else {
-                    result = (int)(unsigned)next;
+                    // Characters are unsigned, even if the character type is signed
+                    result = sizeof(Char) == 1 ? (int)(unsigned char)next : (int)(unsigned)next;
                 }
                 return *this;
             }
-- 
2.43.0


From ffc750726ef20c892ac441f80ac497b37c630afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:01 +0000
Subject: [PATCH 12/40] fix: stringreader dropped the last character of the
 string

---
 TameParse/Util/stringreader.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/TameParse/Util/stringreader.h b/TameParse/Util/stringreader.h
index 6480a2f..88ceea6 100644
--- a/TameParse/Util/stringreader.h
+++ b/TameParse/Util/stringreader.h
@@ -68,11 +68,15 @@ namespace util {
         /// \brief Position within the string
         size_t m_Pos;
         
+        /// \brief False once there has been an attempt to read past the end of the string
+        bool m_Good;
+        
     public:
         /// \brief Creates a new stringreader that references the supplied string
         basic_stringreader(const string_type& string)
         : m_SourceString(string)
-        , m_Pos(0) {
+        , m_Pos(0)
+        , m_Good(true) {
         }
         
         /// \brief Returns the next character in the string (or 0 if all of the characters have been read)
@@ -80,6 +84,7 @@ namespace util {
             if (m_Pos >= m_SourceString.size()) {
                 // At the end of the string
                 target = 0;
+                m_Good = false;
             } else {
                 // Return the next character
                 target = m_SourceString[m_Pos++];
@@ -88,9 +93,9 @@ namespace util {
             return *this;
         }
         
-        /// \brief Returns true if there are more characters to read from the string
+        /// \brief Returns true until there has been an attempt to read past the end of the string (as for a standard stream)
         inline bool good() const {
-            return m_Pos < m_SourceString.size();
+            return m_Good;
         }
     };
     
-- 
2.43.0


From 6021c568a91c5669881c0d73f610e09f3067e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:54 +0000
Subject: [PATCH 13/40] fix: character categories only contained the ends of
 ranges given by their first and last character

UnicodeData.txt lists CJK ideographs, Hangul syllables, surrogates and private
use characters as <..., First> and <..., Last> entries. Only these two characters
were part of the category, so {unicode-letter} didn't match most ideographs.
---
 TameParse/Unicode/unicode.pl     | 4 ++--
 TameParse/Unicode/unicode_data.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TameParse/Unicode/unicode.pl b/TameParse/Unicode/unicode.pl
index 19c87fc..ebc6c55 100755
--- a/TameParse/Unicode/unicode.pl
+++ b/TameParse/Unicode/unicode.pl
@@ -28,8 +28,8 @@ while ($_ = <>) {
 		# Get the last item
 		$lastRange = $rangeArray->[-1];
 
-		# Compare to the character
-		if ($lastRange->[1] == $charNum - 1) {
+		# Compare to the character (a range of characters can be specified by its first and last characters only)
+		if ($lastRange->[1] == $charNum - 1 || $fields[1] =~ /, Last>$/) {
 			# Just update the range
 			$lastRange->[1] = $charNum;
 		} else {
diff --git a/TameParse/Unicode/unicode_data.h b/TameParse/Unicode/unicode_data.h
index 89810a9..2f9113d 100644
--- a/TameParse/Unicode/unicode_data.h
+++ b/TameParse/Unicode/unicode_data.h
@@ -1,6 +1,6 @@
 /* Unicode character type table generated by unicode.pl */
 
-static unicode::range s_RangeCo[] = { { 57344, 57345 }, { 63743, 63744 }, { 983040, 983041 }, { 1048573, 1048574 }, { 1048576, 1048577 }, { 1114109, 1114110 }, { -1, -1 } };
+static unicode::range s_RangeCo[] = { { 57344, 63744 }, { 983040, 1048574 }, { 1048576, 1114110 }, { -1, -1 } };
 static unicode::range s_RangeLm[] = { { 688, 706 }, { 710, 722 }, { 736, 741 }, { 748, 749 }, { 750, 751 }, { 884, 885 }, { 890, 891 }, { 1369, 1370 }, { 1600, 1601 }, { 1765, 1767 }, { 2036, 2038 }, { 2042, 2043 }, { 2074, 2075 }, { 2084, 2085 }, { 2088, 2089 }, { 2417, 2418 }, { 3654, 3655 }, { 3782, 3783 }, { 4348, 4349 }, { 6103, 6104 }, { 6211, 6212 }, { 6823, 6824 }, { 7288, 7294 }, { 7468, 7522 }, { 7544, 7545 }, { 7579, 7616 }, { 8305, 8306 }, { 8319, 8320 }, { 8336, 8349 }, { 11389, 11390 }, { 11631, 11632 }, { 11823, 11824 }, { 12293, 12294 }, { 12337, 12342 }, { 12347, 12348 }, { 12445, 12447 }, { 12540, 12543 }, { 40981, 40982 }, { 42232, 42238 }, { 42508, 42509 }, { 42623, 42624 }, { 42775, 42784 }, { 42864, 42865 }, { 42888, 42889 }, { 43471, 43472 }, { 43632, 43633 }, { 43741, 43742 }, { 65392, 65393 }, { 65438, 65440 }, { -1, -1 } };
 static unicode::range s_RangePd[] = { { 45, 46 }, { 1418, 1419 }, { 1470, 1471 }, { 5120, 5121 }, { 6150, 6151 }, { 8208, 8214 }, { 11799, 11800 }, { 11802, 11803 }, { 12316, 12317 }, { 12336, 12337 }, { 12448, 12449 }, { 65073, 65075 }, { 65112, 65113 }, { 65123, 65124 }, { 65293, 65294 }, { -1, -1 } };
 static unicode::range s_RangeSo[] = { { 166, 168 }, { 169, 170 }, { 174, 175 }, { 176, 177 }, { 182, 183 }, { 1154, 1155 }, { 1550, 1552 }, { 1758, 1759 }, { 1769, 1770 }, { 1789, 1791 }, { 2038, 2039 }, { 2554, 2555 }, { 2928, 2929 }, { 3059, 3065 }, { 3066, 3067 }, { 3199, 3200 }, { 3449, 3450 }, { 3841, 3844 }, { 3859, 3864 }, { 3866, 3872 }, { 3892, 3893 }, { 3894, 3895 }, { 3896, 3897 }, { 4030, 4038 }, { 4039, 4045 }, { 4046, 4048 }, { 4053, 4057 }, { 4254, 4256 }, { 4960, 4961 }, { 5008, 5018 }, { 6464, 6465 }, { 6622, 6656 }, { 7009, 7019 }, { 7028, 7037 }, { 8448, 8450 }, { 8451, 8455 }, { 8456, 8458 }, { 8468, 8469 }, { 8470, 8472 }, { 8478, 8484 }, { 8485, 8486 }, { 8487, 8488 }, { 8489, 8490 }, { 8494, 8495 }, { 8506, 8508 }, { 8522, 8523 }, { 8524, 8526 }, { 8527, 8528 }, { 8597, 8602 }, { 8604, 8608 }, { 8609, 8611 }, { 8612, 8614 }, { 8615, 8622 }, { 8623, 8654 }, { 8656, 8658 }, { 8659, 8660 }, { 8661, 8692 }, { 8960, 8968 }, { 8972, 8992 }, { 8994, 9001 }, { 9003, 9084 }, { 9085, 9115 }, { 9140, 9180 }, { 9186, 9204 }, { 9216, 9255 }, { 9280, 9291 }, { 9372, 9450 }, { 9472, 9655 }, { 9656, 9665 }, { 9666, 9720 }, { 9728, 9839 }, { 9840, 9984 }, { 9985, 10088 }, { 10132, 10176 }, { 10240, 10496 }, { 11008, 11056 }, { 11077, 11079 }, { 11088, 11098 }, { 11493, 11499 }, { 11904, 11930 }, { 11931, 12020 }, { 12032, 12246 }, { 12272, 12284 }, { 12292, 12293 }, { 12306, 12308 }, { 12320, 12321 }, { 12342, 12344 }, { 12350, 12352 }, { 12688, 12690 }, { 12694, 12704 }, { 12736, 12772 }, { 12800, 12831 }, { 12842, 12881 }, { 12896, 12928 }, { 12938, 12977 }, { 12992, 13055 }, { 13056, 13312 }, { 19904, 19968 }, { 42128, 42183 }, { 43048, 43052 }, { 43062, 43064 }, { 43065, 43066 }, { 43639, 43642 }, { 65021, 65022 }, { 65508, 65509 }, { 65512, 65513 }, { 65517, 65519 }, { 65532, 65534 }, { 65794, 65795 }, { 65847, 65856 }, { 65913, 65930 }, { 65936, 65948 }, { 66000, 66045 }, { 118784, 119030 }, { 119040, 119079 }, { 119081, 119141 }, { 119146, 119149 }, { 119171, 119173 }, { 119180, 119210 }, { 119214, 119262 }, { 119296, 119362 }, { 119365, 119366 }, { 119552, 119639 }, { 126976, 127020 }, { 127024, 127124 }, { 127136, 127151 }, { 127153, 127167 }, { 127169, 127184 }, { 127185, 127200 }, { 127248, 127279 }, { 127280, 127338 }, { 127344, 127387 }, { 127462, 127491 }, { 127504, 127547 }, { 127552, 127561 }, { 127568, 127570 }, { 127744, 127777 }, { 127792, 127798 }, { 127799, 127869 }, { 127872, 127892 }, { 127904, 127941 }, { 127942, 127947 }, { 127968, 127985 }, { 128000, 128063 }, { 128064, 128065 }, { 128066, 128248 }, { 128249, 128253 }, { 128256, 128318 }, { 128336, 128360 }, { 128507, 128512 }, { 128513, 128529 }, { 128530, 128533 }, { 128534, 128535 }, { 128536, 128537 }, { 128538, 128539 }, { 128540, 128543 }, { 128544, 128550 }, { 128552, 128556 }, { 128557, 128558 }, { 128560, 128564 }, { 128565, 128577 }, { 128581, 128592 }, { 128640, 128710 }, { 128768, 128884 }, { -1, -1 } };
@@ -18,11 +18,11 @@ static unicode::range s_RangeCc[] = { { 0, 32 }, { 127, 160 }, { -1, -1 } };
 static unicode::range s_RangeLu[] = { { 65, 91 }, { 192, 215 }, { 216, 223 }, { 256, 257 }, { 258, 259 }, { 260, 261 }, { 262, 263 }, { 264, 265 }, { 266, 267 }, { 268, 269 }, { 270, 271 }, { 272, 273 }, { 274, 275 }, { 276, 277 }, { 278, 279 }, { 280, 281 }, { 282, 283 }, { 284, 285 }, { 286, 287 }, { 288, 289 }, { 290, 291 }, { 292, 293 }, { 294, 295 }, { 296, 297 }, { 298, 299 }, { 300, 301 }, { 302, 303 }, { 304, 305 }, { 306, 307 }, { 308, 309 }, { 310, 311 }, { 313, 314 }, { 315, 316 }, { 317, 318 }, { 319, 320 }, { 321, 322 }, { 323, 324 }, { 325, 326 }, { 327, 328 }, { 330, 331 }, { 332, 333 }, { 334, 335 }, { 336, 337 }, { 338, 339 }, { 340, 341 }, { 342, 343 }, { 344, 345 }, { 346, 347 }, { 348, 349 }, { 350, 351 }, { 352, 353 }, { 354, 355 }, { 356, 357 }, { 358, 359 }, { 360, 361 }, { 362, 363 }, { 364, 365 }, { 366, 367 }, { 368, 369 }, { 370, 371 }, { 372, 373 }, { 374, 375 }, { 376, 378 }, { 379, 380 }, { 381, 382 }, { 385, 387 }, { 388, 389 }, { 390, 392 }, { 393, 396 }, { 398, 402 }, { 403, 405 }, { 406, 409 }, { 412, 414 }, { 415, 417 }, { 418, 419 }, { 420, 421 }, { 422, 424 }, { 425, 426 }, { 428, 429 }, { 430, 432 }, { 433, 436 }, { 437, 438 }, { 439, 441 }, { 444, 445 }, { 452, 453 }, { 455, 456 }, { 458, 459 }, { 461, 462 }, { 463, 464 }, { 465, 466 }, { 467, 468 }, { 469, 470 }, { 471, 472 }, { 473, 474 }, { 475, 476 }, { 478, 479 }, { 480, 481 }, { 482, 483 }, { 484, 485 }, { 486, 487 }, { 488, 489 }, { 490, 491 }, { 492, 493 }, { 494, 495 }, { 497, 498 }, { 500, 501 }, { 502, 505 }, { 506, 507 }, { 508, 509 }, { 510, 511 }, { 512, 513 }, { 514, 515 }, { 516, 517 }, { 518, 519 }, { 520, 521 }, { 522, 523 }, { 524, 525 }, { 526, 527 }, { 528, 529 }, { 530, 531 }, { 532, 533 }, { 534, 535 }, { 536, 537 }, { 538, 539 }, { 540, 541 }, { 542, 543 }, { 544, 545 }, { 546, 547 }, { 548, 549 }, { 550, 551 }, { 552, 553 }, { 554, 555 }, { 556, 557 }, { 558, 559 }, { 560, 561 }, { 562, 563 }, { 570, 572 }, { 573, 575 }, { 577, 578 }, { 579, 583 }, { 584, 585 }, { 586, 587 }, { 588, 589 }, { 590, 591 }, { 880, 881 }, { 882, 883 }, { 886, 887 }, { 902, 903 }, { 904, 907 }, { 908, 909 }, { 910, 912 }, { 913, 930 }, { 931, 940 }, { 975, 976 }, { 978, 981 }, { 984, 985 }, { 986, 987 }, { 988, 989 }, { 990, 991 }, { 992, 993 }, { 994, 995 }, { 996, 997 }, { 998, 999 }, { 1000, 1001 }, { 1002, 1003 }, { 1004, 1005 }, { 1006, 1007 }, { 1012, 1013 }, { 1015, 1016 }, { 1017, 1019 }, { 1021, 1072 }, { 1120, 1121 }, { 1122, 1123 }, { 1124, 1125 }, { 1126, 1127 }, { 1128, 1129 }, { 1130, 1131 }, { 1132, 1133 }, { 1134, 1135 }, { 1136, 1137 }, { 1138, 1139 }, { 1140, 1141 }, { 1142, 1143 }, { 1144, 1145 }, { 1146, 1147 }, { 1148, 1149 }, { 1150, 1151 }, { 1152, 1153 }, { 1162, 1163 }, { 1164, 1165 }, { 1166, 1167 }, { 1168, 1169 }, { 1170, 1171 }, { 1172, 1173 }, { 1174, 1175 }, { 1176, 1177 }, { 1178, 1179 }, { 1180, 1181 }, { 1182, 1183 }, { 1184, 1185 }, { 1186, 1187 }, { 1188, 1189 }, { 1190, 1191 }, { 1192, 1193 }, { 1194, 1195 }, { 1196, 1197 }, { 1198, 1199 }, { 1200, 1201 }, { 1202, 1203 }, { 1204, 1205 }, { 1206, 1207 }, { 1208, 1209 }, { 1210, 1211 }, { 1212, 1213 }, { 1214, 1215 }, { 1216, 1218 }, { 1219, 1220 }, { 1221, 1222 }, { 1223, 1224 }, { 1225, 1226 }, { 1227, 1228 }, { 1229, 1230 }, { 1232, 1233 }, { 1234, 1235 }, { 1236, 1237 }, { 1238, 1239 }, { 1240, 1241 }, { 1242, 1243 }, { 1244, 1245 }, { 1246, 1247 }, { 1248, 1249 }, { 1250, 1251 }, { 1252, 1253 }, { 1254, 1255 }, { 1256, 1257 }, { 1258, 1259 }, { 1260, 1261 }, { 1262, 1263 }, { 1264, 1265 }, { 1266, 1267 }, { 1268, 1269 }, { 1270, 1271 }, { 1272, 1273 }, { 1274, 1275 }, { 1276, 1277 }, { 1278, 1279 }, { 1280, 1281 }, { 1282, 1283 }, { 1284, 1285 }, { 1286, 1287 }, { 1288, 1289 }, { 1290, 1291 }, { 1292, 1293 }, { 1294, 1295 }, { 1296, 1297 }, { 1298, 1299 }, { 1300, 1301 }, { 1302, 1303 }, { 1304, 1305 }, { 1306, 1307 }, { 1308, 1309 }, { 1310, 1311 }, { 1312, 1313 }, { 1314, 1315 }, { 1316, 1317 }, { 1318, 1319 }, { 1329, 1367 }, { 4256, 4294 }, { 7680, 7681 }, { 7682, 7683 }, { 7684, 7685 }, { 7686, 7687 }, { 7688, 7689 }, { 7690, 7691 }, { 7692, 7693 }, { 7694, 7695 }, { 7696, 7697 }, { 7698, 7699 }, { 7700, 7701 }, { 7702, 7703 }, { 7704, 7705 }, { 7706, 7707 }, { 7708, 7709 }, { 7710, 7711 }, { 7712, 7713 }, { 7714, 7715 }, { 7716, 7717 }, { 7718, 7719 }, { 7720, 7721 }, { 7722, 7723 }, { 7724, 7725 }, { 7726, 7727 }, { 7728, 7729 }, { 7730, 7731 }, { 7732, 7733 }, { 7734, 7735 }, { 7736, 7737 }, { 7738, 7739 }, { 7740, 7741 }, { 7742, 7743 }, { 7744, 7745 }, { 7746, 7747 }, { 7748, 7749 }, { 7750, 7751 }, { 7752, 7753 }, { 7754, 7755 }, { 7756, 7757 }, { 7758, 7759 }, { 7760, 7761 }, { 7762, 7763 }, { 7764, 7765 }, { 7766, 7767 }, { 7768, 7769 }, { 7770, 7771 }, { 7772, 7773 }, { 7774, 7775 }, { 7776, 7777 }, { 7778, 7779 }, { 7780, 7781 }, { 7782, 7783 }, { 7784, 7785 }, { 7786, 7787 }, { 7788, 7789 }, { 7790, 7791 }, { 7792, 7793 }, { 7794, 7795 }, { 7796, 7797 }, { 7798, 7799 }, { 7800, 7801 }, { 7802, 7803 }, { 7804, 7805 }, { 7806, 7807 }, { 7808, 7809 }, { 7810, 7811 }, { 7812, 7813 }, { 7814, 7815 }, { 7816, 7817 }, { 7818, 7819 }, { 7820, 7821 }, { 7822, 7823 }, { 7824, 7825 }, { 7826, 7827 }, { 7828, 7829 }, { 7838, 7839 }, { 7840, 7841 }, { 7842, 7843 }, { 7844, 7845 }, { 7846, 7847 }, { 7848, 7849 }, { 7850, 7851 }, { 7852, 7853 }, { 7854, 7855 }, { 7856, 7857 }, { 7858, 7859 }, { 7860, 7861 }, { 7862, 7863 }, { 7864, 7865 }, { 7866, 7867 }, { 7868, 7869 }, { 7870, 7871 }, { 7872, 7873 }, { 7874, 7875 }, { 7876, 7877 }, { 7878, 7879 }, { 7880, 7881 }, { 7882, 7883 }, { 7884, 7885 }, { 7886, 7887 }, { 7888, 7889 }, { 7890, 7891 }, { 7892, 7893 }, { 7894, 7895 }, { 7896, 7897 }, { 7898, 7899 }, { 7900, 7901 }, { 7902, 7903 }, { 7904, 7905 }, { 7906, 7907 }, { 7908, 7909 }, { 7910, 7911 }, { 7912, 7913 }, { 7914, 7915 }, { 7916, 7917 }, { 7918, 7919 }, { 7920, 7921 }, { 7922, 7923 }, { 7924, 7925 }, { 7926, 7927 }, { 7928, 7929 }, { 7930, 7931 }, { 7932, 7933 }, { 7934, 7935 }, { 7944, 7952 }, { 7960, 7966 }, { 7976, 7984 }, { 7992, 8000 }, { 8008, 8014 }, { 8025, 8026 }, { 8027, 8028 }, { 8029, 8030 }, { 8031, 8032 }, { 8040, 8048 }, { 8120, 8124 }, { 8136, 8140 }, { 8152, 8156 }, { 8168, 8173 }, { 8184, 8188 }, { 8450, 8451 }, { 8455, 8456 }, { 8459, 8462 }, { 8464, 8467 }, { 8469, 8470 }, { 8473, 8478 }, { 8484, 8485 }, { 8486, 8487 }, { 8488, 8489 }, { 8490, 8494 }, { 8496, 8500 }, { 8510, 8512 }, { 8517, 8518 }, { 8579, 8580 }, { 11264, 11311 }, { 11360, 11361 }, { 11362, 11365 }, { 11367, 11368 }, { 11369, 11370 }, { 11371, 11372 }, { 11373, 11377 }, { 11378, 11379 }, { 11381, 11382 }, { 11390, 11393 }, { 11394, 11395 }, { 11396, 11397 }, { 11398, 11399 }, { 11400, 11401 }, { 11402, 11403 }, { 11404, 11405 }, { 11406, 11407 }, { 11408, 11409 }, { 11410, 11411 }, { 11412, 11413 }, { 11414, 11415 }, { 11416, 11417 }, { 11418, 11419 }, { 11420, 11421 }, { 11422, 11423 }, { 11424, 11425 }, { 11426, 11427 }, { 11428, 11429 }, { 11430, 11431 }, { 11432, 11433 }, { 11434, 11435 }, { 11436, 11437 }, { 11438, 11439 }, { 11440, 11441 }, { 11442, 11443 }, { 11444, 11445 }, { 11446, 11447 }, { 11448, 11449 }, { 11450, 11451 }, { 11452, 11453 }, { 11454, 11455 }, { 11456, 11457 }, { 11458, 11459 }, { 11460, 11461 }, { 11462, 11463 }, { 11464, 11465 }, { 11466, 11467 }, { 11468, 11469 }, { 11470, 11471 }, { 11472, 11473 }, { 11474, 11475 }, { 11476, 11477 }, { 11478, 11479 }, { 11480, 11481 }, { 11482, 11483 }, { 11484, 11485 }, { 11486, 11487 }, { 11488, 11489 }, { 11490, 11491 }, { 11499, 11500 }, { 11501, 11502 }, { 42560, 42561 }, { 42562, 42563 }, { 42564, 42565 }, { 42566, 42567 }, { 42568, 42569 }, { 42570, 42571 }, { 42572, 42573 }, { 42574, 42575 }, { 42576, 42577 }, { 42578, 42579 }, { 42580, 42581 }, { 42582, 42583 }, { 42584, 42585 }, { 42586, 42587 }, { 42588, 42589 }, { 42590, 42591 }, { 42592, 42593 }, { 42594, 42595 }, { 42596, 42597 }, { 42598, 42599 }, { 42600, 42601 }, { 42602, 42603 }, { 42604, 42605 }, { 42624, 42625 }, { 42626, 42627 }, { 42628, 42629 }, { 42630, 42631 }, { 42632, 42633 }, { 42634, 42635 }, { 42636, 42637 }, { 42638, 42639 }, { 42640, 42641 }, { 42642, 42643 }, { 42644, 42645 }, { 42646, 42647 }, { 42786, 42787 }, { 42788, 42789 }, { 42790, 42791 }, { 42792, 42793 }, { 42794, 42795 }, { 42796, 42797 }, { 42798, 42799 }, { 42802, 42803 }, { 42804, 42805 }, { 42806, 42807 }, { 42808, 42809 }, { 42810, 42811 }, { 42812, 42813 }, { 42814, 42815 }, { 42816, 42817 }, { 42818, 42819 }, { 42820, 42821 }, { 42822, 42823 }, { 42824, 42825 }, { 42826, 42827 }, { 42828, 42829 }, { 42830, 42831 }, { 42832, 42833 }, { 42834, 42835 }, { 42836, 42837 }, { 42838, 42839 }, { 42840, 42841 }, { 42842, 42843 }, { 42844, 42845 }, { 42846, 42847 }, { 42848, 42849 }, { 42850, 42851 }, { 42852, 42853 }, { 42854, 42855 }, { 42856, 42857 }, { 42858, 42859 }, { 42860, 42861 }, { 42862, 42863 }, { 42873, 42874 }, { 42875, 42876 }, { 42877, 42879 }, { 42880, 42881 }, { 42882, 42883 }, { 42884, 42885 }, { 42886, 42887 }, { 42891, 42892 }, { 42893, 42894 }, { 42896, 42897 }, { 42912, 42913 }, { 42914, 42915 }, { 42916, 42917 }, { 42918, 42919 }, { 42920, 42921 }, { 65313, 65339 }, { 66560, 66600 }, { 119808, 119834 }, { 119860, 119886 }, { 119912, 119938 }, { 119964, 119965 }, { 119966, 119968 }, { 119970, 119971 }, { 119973, 119975 }, { 119977, 119981 }, { 119982, 119990 }, { 120016, 120042 }, { 120068, 120070 }, { 120071, 120075 }, { 120077, 120085 }, { 120086, 120093 }, { 120120, 120122 }, { 120123, 120127 }, { 120128, 120133 }, { 120134, 120135 }, { 120138, 120145 }, { 120172, 120198 }, { 120224, 120250 }, { 120276, 120302 }, { 120328, 120354 }, { 120380, 120406 }, { 120432, 120458 }, { 120488, 120513 }, { 120546, 120571 }, { 120604, 120629 }, { 120662, 120687 }, { 120720, 120745 }, { 120778, 120779 }, { -1, -1 } };
 static unicode::range s_RangeMc[] = { { 2307, 2308 }, { 2363, 2364 }, { 2366, 2369 }, { 2377, 2381 }, { 2382, 2384 }, { 2434, 2436 }, { 2494, 2497 }, { 2503, 2505 }, { 2507, 2509 }, { 2519, 2520 }, { 2563, 2564 }, { 2622, 2625 }, { 2691, 2692 }, { 2750, 2753 }, { 2761, 2762 }, { 2763, 2765 }, { 2818, 2820 }, { 2878, 2879 }, { 2880, 2881 }, { 2887, 2889 }, { 2891, 2893 }, { 2903, 2904 }, { 3006, 3008 }, { 3009, 3011 }, { 3014, 3017 }, { 3018, 3021 }, { 3031, 3032 }, { 3073, 3076 }, { 3137, 3141 }, { 3202, 3204 }, { 3262, 3263 }, { 3264, 3269 }, { 3271, 3273 }, { 3274, 3276 }, { 3285, 3287 }, { 3330, 3332 }, { 3390, 3393 }, { 3398, 3401 }, { 3402, 3405 }, { 3415, 3416 }, { 3458, 3460 }, { 3535, 3538 }, { 3544, 3552 }, { 3570, 3572 }, { 3902, 3904 }, { 3967, 3968 }, { 4139, 4141 }, { 4145, 4146 }, { 4152, 4153 }, { 4155, 4157 }, { 4182, 4184 }, { 4194, 4197 }, { 4199, 4206 }, { 4227, 4229 }, { 4231, 4237 }, { 4239, 4240 }, { 4250, 4253 }, { 6070, 6071 }, { 6078, 6086 }, { 6087, 6089 }, { 6435, 6439 }, { 6441, 6444 }, { 6448, 6450 }, { 6451, 6457 }, { 6576, 6593 }, { 6600, 6602 }, { 6681, 6684 }, { 6741, 6742 }, { 6743, 6744 }, { 6753, 6754 }, { 6755, 6757 }, { 6765, 6771 }, { 6916, 6917 }, { 6965, 6966 }, { 6971, 6972 }, { 6973, 6978 }, { 6979, 6981 }, { 7042, 7043 }, { 7073, 7074 }, { 7078, 7080 }, { 7082, 7083 }, { 7143, 7144 }, { 7146, 7149 }, { 7150, 7151 }, { 7154, 7156 }, { 7204, 7212 }, { 7220, 7222 }, { 7393, 7394 }, { 7410, 7411 }, { 43043, 43045 }, { 43047, 43048 }, { 43136, 43138 }, { 43188, 43204 }, { 43346, 43348 }, { 43395, 43396 }, { 43444, 43446 }, { 43450, 43452 }, { 43453, 43457 }, { 43567, 43569 }, { 43571, 43573 }, { 43597, 43598 }, { 43643, 43644 }, { 44003, 44005 }, { 44006, 44008 }, { 44009, 44011 }, { 44012, 44013 }, { 69632, 69633 }, { 69634, 69635 }, { 69762, 69763 }, { 69808, 69811 }, { 69815, 69817 }, { 119141, 119143 }, { 119149, 119155 }, { -1, -1 } };
 static unicode::range s_RangeSm[] = { { 43, 44 }, { 60, 63 }, { 124, 125 }, { 126, 127 }, { 172, 173 }, { 177, 178 }, { 215, 216 }, { 247, 248 }, { 1014, 1015 }, { 1542, 1545 }, { 8260, 8261 }, { 8274, 8275 }, { 8314, 8317 }, { 8330, 8333 }, { 8472, 8473 }, { 8512, 8517 }, { 8523, 8524 }, { 8592, 8597 }, { 8602, 8604 }, { 8608, 8609 }, { 8611, 8612 }, { 8614, 8615 }, { 8622, 8623 }, { 8654, 8656 }, { 8658, 8659 }, { 8660, 8661 }, { 8692, 8960 }, { 8968, 8972 }, { 8992, 8994 }, { 9084, 9085 }, { 9115, 9140 }, { 9180, 9186 }, { 9655, 9656 }, { 9665, 9666 }, { 9720, 9728 }, { 9839, 9840 }, { 10176, 10181 }, { 10183, 10187 }, { 10188, 10189 }, { 10190, 10214 }, { 10224, 10240 }, { 10496, 10627 }, { 10649, 10712 }, { 10716, 10748 }, { 10750, 11008 }, { 11056, 11077 }, { 11079, 11085 }, { 64297, 64298 }, { 65122, 65123 }, { 65124, 65127 }, { 65291, 65292 }, { 65308, 65311 }, { 65372, 65373 }, { 65374, 65375 }, { 65506, 65507 }, { 65513, 65517 }, { 120513, 120514 }, { 120539, 120540 }, { 120571, 120572 }, { 120597, 120598 }, { 120629, 120630 }, { 120655, 120656 }, { 120687, 120688 }, { 120713, 120714 }, { 120745, 120746 }, { 120771, 120772 }, { -1, -1 } };
-static unicode::range s_RangeCs[] = { { 55296, 55297 }, { 56191, 56193 }, { 56319, 56321 }, { 57343, 57344 }, { -1, -1 } };
+static unicode::range s_RangeCs[] = { { 55296, 57344 }, { -1, -1 } };
 static unicode::range s_RangeLt[] = { { 453, 454 }, { 456, 457 }, { 459, 460 }, { 498, 499 }, { 8072, 8080 }, { 8088, 8096 }, { 8104, 8112 }, { 8124, 8125 }, { 8140, 8141 }, { 8188, 8189 }, { -1, -1 } };
 static unicode::range s_RangePc[] = { { 95, 96 }, { 8255, 8257 }, { 8276, 8277 }, { 65075, 65077 }, { 65101, 65104 }, { 65343, 65344 }, { -1, -1 } };
 static unicode::range s_RangeNl[] = { { 5870, 5873 }, { 8544, 8579 }, { 8581, 8585 }, { 12295, 12296 }, { 12321, 12330 }, { 12344, 12347 }, { 42726, 42736 }, { 65856, 65909 }, { 66369, 66370 }, { 66378, 66379 }, { 66513, 66518 }, { 74752, 74851 }, { -1, -1 } };
-static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 13313 }, { 19893, 19894 }, { 19968, 19969 }, { 40907, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 44033 }, { 55203, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 131073 }, { 173782, 173783 }, { 173824, 173825 }, { 177972, 177973 }, { 177984, 177985 }, { 178205, 178206 }, { 194560, 195102 }, { -1, -1 } };
+static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 19894 }, { 19968, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 173783 }, { 173824, 177973 }, { 177984, 178206 }, { 194560, 195102 }, { -1, -1 } };
 static unicode::range s_RangePi[] = { { 171, 172 }, { 8216, 8217 }, { 8219, 8221 }, { 8223, 8224 }, { 8249, 8250 }, { 11778, 11779 }, { 11780, 11781 }, { 11785, 11786 }, { 11788, 11789 }, { 11804, 11805 }, { 11808, 11809 }, { -1, -1 } };
 static unicode::range s_RangeMe[] = { { 1160, 1162 }, { 8413, 8417 }, { 8418, 8421 }, { 42608, 42611 }, { -1, -1 } };
 static unicode::range s_RangeLl[] = { { 97, 123 }, { 170, 171 }, { 181, 182 }, { 186, 187 }, { 223, 247 }, { 248, 256 }, { 257, 258 }, { 259, 260 }, { 261, 262 }, { 263, 264 }, { 265, 266 }, { 267, 268 }, { 269, 270 }, { 271, 272 }, { 273, 274 }, { 275, 276 }, { 277, 278 }, { 279, 280 }, { 281, 282 }, { 283, 284 }, { 285, 286 }, { 287, 288 }, { 289, 290 }, { 291, 292 }, { 293, 294 }, { 295, 296 }, { 297, 298 }, { 299, 300 }, { 301, 302 }, { 303, 304 }, { 305, 306 }, { 307, 308 }, { 309, 310 }, { 311, 313 }, { 314, 315 }, { 316, 317 }, { 318, 319 }, { 320, 321 }, { 322, 323 }, { 324, 325 }, { 326, 327 }, { 328, 330 }, { 331, 332 }, { 333, 334 }, { 335, 336 }, { 337, 338 }, { 339, 340 }, { 341, 342 }, { 343, 344 }, { 345, 346 }, { 347, 348 }, { 349, 350 }, { 351, 352 }, { 353, 354 }, { 355, 356 }, { 357, 358 }, { 359, 360 }, { 361, 362 }, { 363, 364 }, { 365, 366 }, { 367, 368 }, { 369, 370 }, { 371, 372 }, { 373, 374 }, { 375, 376 }, { 378, 379 }, { 380, 381 }, { 382, 385 }, { 387, 388 }, { 389, 390 }, { 392, 393 }, { 396, 398 }, { 402, 403 }, { 405, 406 }, { 409, 412 }, { 414, 415 }, { 417, 418 }, { 419, 420 }, { 421, 422 }, { 424, 425 }, { 426, 428 }, { 429, 430 }, { 432, 433 }, { 436, 437 }, { 438, 439 }, { 441, 443 }, { 445, 448 }, { 454, 455 }, { 457, 458 }, { 460, 461 }, { 462, 463 }, { 464, 465 }, { 466, 467 }, { 468, 469 }, { 470, 471 }, { 472, 473 }, { 474, 475 }, { 476, 478 }, { 479, 480 }, { 481, 482 }, { 483, 484 }, { 485, 486 }, { 487, 488 }, { 489, 490 }, { 491, 492 }, { 493, 494 }, { 495, 497 }, { 499, 500 }, { 501, 502 }, { 505, 506 }, { 507, 508 }, { 509, 510 }, { 511, 512 }, { 513, 514 }, { 515, 516 }, { 517, 518 }, { 519, 520 }, { 521, 522 }, { 523, 524 }, { 525, 526 }, { 527, 528 }, { 529, 530 }, { 531, 532 }, { 533, 534 }, { 535, 536 }, { 537, 538 }, { 539, 540 }, { 541, 542 }, { 543, 544 }, { 545, 546 }, { 547, 548 }, { 549, 550 }, { 551, 552 }, { 553, 554 }, { 555, 556 }, { 557, 558 }, { 559, 560 }, { 561, 562 }, { 563, 570 }, { 572, 573 }, { 575, 577 }, { 578, 579 }, { 583, 584 }, { 585, 586 }, { 587, 588 }, { 589, 590 }, { 591, 660 }, { 661, 688 }, { 881, 882 }, { 883, 884 }, { 887, 888 }, { 891, 894 }, { 912, 913 }, { 940, 975 }, { 976, 978 }, { 981, 984 }, { 985, 986 }, { 987, 988 }, { 989, 990 }, { 991, 992 }, { 993, 994 }, { 995, 996 }, { 997, 998 }, { 999, 1000 }, { 1001, 1002 }, { 1003, 1004 }, { 1005, 1006 }, { 1007, 1012 }, { 1013, 1014 }, { 1016, 1017 }, { 1019, 1021 }, { 1072, 1120 }, { 1121, 1122 }, { 1123, 1124 }, { 1125, 1126 }, { 1127, 1128 }, { 1129, 1130 }, { 1131, 1132 }, { 1133, 1134 }, { 1135, 1136 }, { 1137, 1138 }, { 1139, 1140 }, { 1141, 1142 }, { 1143, 1144 }, { 1145, 1146 }, { 1147, 1148 }, { 1149, 1150 }, { 1151, 1152 }, { 1153, 1154 }, { 1163, 1164 }, { 1165, 1166 }, { 1167, 1168 }, { 1169, 1170 }, { 1171, 1172 }, { 1173, 1174 }, { 1175, 1176 }, { 1177, 1178 }, { 1179, 1180 }, { 1181, 1182 }, { 1183, 1184 }, { 1185, 1186 }, { 1187, 1188 }, { 1189, 1190 }, { 1191, 1192 }, { 1193, 1194 }, { 1195, 1196 }, { 1197, 1198 }, { 1199, 1200 }, { 1201, 1202 }, { 1203, 1204 }, { 1205, 1206 }, { 1207, 1208 }, { 1209, 1210 }, { 1211, 1212 }, { 1213, 1214 }, { 1215, 1216 }, { 1218, 1219 }, { 1220, 1221 }, { 1222, 1223 }, { 1224, 1225 }, { 1226, 1227 }, { 1228, 1229 }, { 1230, 1232 }, { 1233, 1234 }, { 1235, 1236 }, { 1237, 1238 }, { 1239, 1240 }, { 1241, 1242 }, { 1243, 1244 }, { 1245, 1246 }, { 1247, 1248 }, { 1249, 1250 }, { 1251, 1252 }, { 1253, 1254 }, { 1255, 1256 }, { 1257, 1258 }, { 1259, 1260 }, { 1261, 1262 }, { 1263, 1264 }, { 1265, 1266 }, { 1267, 1268 }, { 1269, 1270 }, { 1271, 1272 }, { 1273, 1274 }, { 1275, 1276 }, { 1277, 1278 }, { 1279, 1280 }, { 1281, 1282 }, { 1283, 1284 }, { 1285, 1286 }, { 1287, 1288 }, { 1289, 1290 }, { 1291, 1292 }, { 1293, 1294 }, { 1295, 1296 }, { 1297, 1298 }, { 1299, 1300 }, { 1301, 1302 }, { 1303, 1304 }, { 1305, 1306 }, { 1307, 1308 }, { 1309, 1310 }, { 1311, 1312 }, { 1313, 1314 }, { 1315, 1316 }, { 1317, 1318 }, { 1319, 1320 }, { 1377, 1416 }, { 7424, 7468 }, { 7522, 7544 }, { 7545, 7579 }, { 7681, 7682 }, { 7683, 7684 }, { 7685, 7686 }, { 7687, 7688 }, { 7689, 7690 }, { 7691, 7692 }, { 7693, 7694 }, { 7695, 7696 }, { 7697, 7698 }, { 7699, 7700 }, { 7701, 7702 }, { 7703, 7704 }, { 7705, 7706 }, { 7707, 7708 }, { 7709, 7710 }, { 7711, 7712 }, { 7713, 7714 }, { 7715, 7716 }, { 7717, 7718 }, { 7719, 7720 }, { 7721, 7722 }, { 7723, 7724 }, { 7725, 7726 }, { 7727, 7728 }, { 7729, 7730 }, { 7731, 7732 }, { 7733, 7734 }, { 7735, 7736 }, { 7737, 7738 }, { 7739, 7740 }, { 7741, 7742 }, { 7743, 7744 }, { 7745, 7746 }, { 7747, 7748 }, { 7749, 7750 }, { 7751, 7752 }, { 7753, 7754 }, { 7755, 7756 }, { 7757, 7758 }, { 7759, 7760 }, { 7761, 7762 }, { 7763, 7764 }, { 7765, 7766 }, { 7767, 7768 }, { 7769, 7770 }, { 7771, 7772 }, { 7773, 7774 }, { 7775, 7776 }, { 7777, 7778 }, { 7779, 7780 }, { 7781, 7782 }, { 7783, 7784 }, { 7785, 7786 }, { 7787, 7788 }, { 7789, 7790 }, { 7791, 7792 }, { 7793, 7794 }, { 7795, 7796 }, { 7797, 7798 }, { 7799, 7800 }, { 7801, 7802 }, { 7803, 7804 }, { 7805, 7806 }, { 7807, 7808 }, { 7809, 7810 }, { 7811, 7812 }, { 7813, 7814 }, { 7815, 7816 }, { 7817, 7818 }, { 7819, 7820 }, { 7821, 7822 }, { 7823, 7824 }, { 7825, 7826 }, { 7827, 7828 }, { 7829, 7838 }, { 7839, 7840 }, { 7841, 7842 }, { 7843, 7844 }, { 7845, 7846 }, { 7847, 7848 }, { 7849, 7850 }, { 7851, 7852 }, { 7853, 7854 }, { 7855, 7856 }, { 7857, 7858 }, { 7859, 7860 }, { 7861, 7862 }, { 7863, 7864 }, { 7865, 7866 }, { 7867, 7868 }, { 7869, 7870 }, { 7871, 7872 }, { 7873, 7874 }, { 7875, 7876 }, { 7877, 7878 }, { 7879, 7880 }, { 7881, 7882 }, { 7883, 7884 }, { 7885, 7886 }, { 7887, 7888 }, { 7889, 7890 }, { 7891, 7892 }, { 7893, 7894 }, { 7895, 7896 }, { 7897, 7898 }, { 7899, 7900 }, { 7901, 7902 }, { 7903, 7904 }, { 7905, 7906 }, { 7907, 7908 }, { 7909, 7910 }, { 7911, 7912 }, { 7913, 7914 }, { 7915, 7916 }, { 7917, 7918 }, { 7919, 7920 }, { 7921, 7922 }, { 7923, 7924 }, { 7925, 7926 }, { 7927, 7928 }, { 7929, 7930 }, { 7931, 7932 }, { 7933, 7934 }, { 7935, 7944 }, { 7952, 7958 }, { 7968, 7976 }, { 7984, 7992 }, { 8000, 8006 }, { 8016, 8024 }, { 8032, 8040 }, { 8048, 8062 }, { 8064, 8072 }, { 8080, 8088 }, { 8096, 8104 }, { 8112, 8117 }, { 8118, 8120 }, { 8126, 8127 }, { 8130, 8133 }, { 8134, 8136 }, { 8144, 8148 }, { 8150, 8152 }, { 8160, 8168 }, { 8178, 8181 }, { 8182, 8184 }, { 8458, 8459 }, { 8462, 8464 }, { 8467, 8468 }, { 8495, 8496 }, { 8500, 8501 }, { 8505, 8506 }, { 8508, 8510 }, { 8518, 8522 }, { 8526, 8527 }, { 8580, 8581 }, { 11312, 11359 }, { 11361, 11362 }, { 11365, 11367 }, { 11368, 11369 }, { 11370, 11371 }, { 11372, 11373 }, { 11377, 11378 }, { 11379, 11381 }, { 11382, 11389 }, { 11393, 11394 }, { 11395, 11396 }, { 11397, 11398 }, { 11399, 11400 }, { 11401, 11402 }, { 11403, 11404 }, { 11405, 11406 }, { 11407, 11408 }, { 11409, 11410 }, { 11411, 11412 }, { 11413, 11414 }, { 11415, 11416 }, { 11417, 11418 }, { 11419, 11420 }, { 11421, 11422 }, { 11423, 11424 }, { 11425, 11426 }, { 11427, 11428 }, { 11429, 11430 }, { 11431, 11432 }, { 11433, 11434 }, { 11435, 11436 }, { 11437, 11438 }, { 11439, 11440 }, { 11441, 11442 }, { 11443, 11444 }, { 11445, 11446 }, { 11447, 11448 }, { 11449, 11450 }, { 11451, 11452 }, { 11453, 11454 }, { 11455, 11456 }, { 11457, 11458 }, { 11459, 11460 }, { 11461, 11462 }, { 11463, 11464 }, { 11465, 11466 }, { 11467, 11468 }, { 11469, 11470 }, { 11471, 11472 }, { 11473, 11474 }, { 11475, 11476 }, { 11477, 11478 }, { 11479, 11480 }, { 11481, 11482 }, { 11483, 11484 }, { 11485, 11486 }, { 11487, 11488 }, { 11489, 11490 }, { 11491, 11493 }, { 11500, 11501 }, { 11502, 11503 }, { 11520, 11558 }, { 42561, 42562 }, { 42563, 42564 }, { 42565, 42566 }, { 42567, 42568 }, { 42569, 42570 }, { 42571, 42572 }, { 42573, 42574 }, { 42575, 42576 }, { 42577, 42578 }, { 42579, 42580 }, { 42581, 42582 }, { 42583, 42584 }, { 42585, 42586 }, { 42587, 42588 }, { 42589, 42590 }, { 42591, 42592 }, { 42593, 42594 }, { 42595, 42596 }, { 42597, 42598 }, { 42599, 42600 }, { 42601, 42602 }, { 42603, 42604 }, { 42605, 42606 }, { 42625, 42626 }, { 42627, 42628 }, { 42629, 42630 }, { 42631, 42632 }, { 42633, 42634 }, { 42635, 42636 }, { 42637, 42638 }, { 42639, 42640 }, { 42641, 42642 }, { 42643, 42644 }, { 42645, 42646 }, { 42647, 42648 }, { 42787, 42788 }, { 42789, 42790 }, { 42791, 42792 }, { 42793, 42794 }, { 42795, 42796 }, { 42797, 42798 }, { 42799, 42802 }, { 42803, 42804 }, { 42805, 42806 }, { 42807, 42808 }, { 42809, 42810 }, { 42811, 42812 }, { 42813, 42814 }, { 42815, 42816 }, { 42817, 42818 }, { 42819, 42820 }, { 42821, 42822 }, { 42823, 42824 }, { 42825, 42826 }, { 42827, 42828 }, { 42829, 42830 }, { 42831, 42832 }, { 42833, 42834 }, { 42835, 42836 }, { 42837, 42838 }, { 42839, 42840 }, { 42841, 42842 }, { 42843, 42844 }, { 42845, 42846 }, { 42847, 42848 }, { 42849, 42850 }, { 42851, 42852 }, { 42853, 42854 }, { 42855, 42856 }, { 42857, 42858 }, { 42859, 42860 }, { 42861, 42862 }, { 42863, 42864 }, { 42865, 42873 }, { 42874, 42875 }, { 42876, 42877 }, { 42879, 42880 }, { 42881, 42882 }, { 42883, 42884 }, { 42885, 42886 }, { 42887, 42888 }, { 42892, 42893 }, { 42894, 42895 }, { 42897, 42898 }, { 42913, 42914 }, { 42915, 42916 }, { 42917, 42918 }, { 42919, 42920 }, { 42921, 42922 }, { 43002, 43003 }, { 64256, 64263 }, { 64275, 64280 }, { 65345, 65371 }, { 66600, 66640 }, { 119834, 119860 }, { 119886, 119893 }, { 119894, 119912 }, { 119938, 119964 }, { 119990, 119994 }, { 119995, 119996 }, { 119997, 120004 }, { 120005, 120016 }, { 120042, 120068 }, { 120094, 120120 }, { 120146, 120172 }, { 120198, 120224 }, { 120250, 120276 }, { 120302, 120328 }, { 120354, 120380 }, { 120406, 120432 }, { 120458, 120486 }, { 120514, 120539 }, { 120540, 120546 }, { 120572, 120597 }, { 120598, 120604 }, { 120630, 120655 }, { 120656, 120662 }, { 120688, 120713 }, { 120714, 120720 }, { 120746, 120771 }, { 120772, 120778 }, { 120779, 120780 }, { -1, -1 } };
-- 
2.43.0


From f6dae431210e6af0588beb928654999d24bb6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:06 +0000
Subject: [PATCH 14/40] fix: checking a regular expression rejected references
 to literal expressions

---
 TameParse/Dfa/ndfa_regex.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index aec807c..05c3c59 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -919,6 +919,11 @@ bool ndfa_regex::check_expression(const symbol_string& expression) {
         return true;
     }
 
+    // Search the literal expression map
+    if (m_LiteralExpressionMap.find(expression) != m_LiteralExpressionMap.end()) {
+        return true;
+    }
+
     // Check if this is a valid unicode expression
     if (!unicode_for_expression(expression).empty()) {
         return true;
-- 
2.43.0


From cb5bc4c4483d7bd55c4c59dd39cd3f10ab33c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:06 +0000
Subject: [PATCH 15/40] fix: checking a regular expression counted quoted
 brackets

---
 TameParse/Dfa/ndfa_regex.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 05c3c59..0cddce5 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -562,6 +562,13 @@ void ndfa_regex::check(position_tracker& exprPos, symbol_string::const_iterator&
 
             do {
                 switch (*bracketPos) {
+                    case '\\':
+                        // Quoted brackets don't open or close anything
+                        if (bracketPos + 1 != end) {
+                            ++bracketPos;
+                        }
+                        break;
+
                     case '{':
                         if (brackets.empty() || brackets.top() == ')') {
                             brackets.push('}');
-- 
2.43.0


From d63954a4e645d1c432fa0f774b573130238a2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:33 +0000
Subject: [PATCH 16/40] fix: FIRST sets of rules and EBNF items that start with
 something that can be empty

The empty item contributed by one rule of a nonterminal was removed again
when a later rule started with a nullable item, and EBNF items only looked
at the first item of their rule even if that item could be empty.
---
 TameParse/ContextFree/ebnf_items.cpp     | 34 ++++++------------------
 TameParse/ContextFree/standard_items.cpp | 34 ++----------------------
 2 files changed, 10 insertions(+), 58 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a062241..a8eb87f 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -186,13 +186,8 @@ item_set ebnf_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -238,11 +233,8 @@ item_set ebnf_repeating::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -290,13 +282,8 @@ item_set ebnf_repeating_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the items that can start the rule
+    result.merge(gram.first_for_rule(r));
     
     return result;    
 }
@@ -354,13 +341,8 @@ item_set ebnf_alternate::first(const grammar& gram) const {
         // Get the rule
         const rule& r = **nextRule;
         
-        // Add items if the rule has a first item
-        if (r.items().size() > 0) {
-            const item_set& ruleItems = gram.first(*(r.items()[0]));
-            result.merge(ruleItems);
-        } else {
-            result.insert(the_empty_item);
-        }
+        // Add the items that can start the rule
+        result.merge(gram.first_for_rule(r));
     }
     
     return result;
diff --git a/TameParse/ContextFree/standard_items.cpp b/TameParse/ContextFree/standard_items.cpp
index a311b3e..10bcdf0 100644
--- a/TameParse/ContextFree/standard_items.cpp
+++ b/TameParse/ContextFree/standard_items.cpp
@@ -119,38 +119,8 @@ item_set nonterminal::first(const grammar& gram) const {
     
     // Merge in the first set for each of the initial symbols
     for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
-        // Get the items for this rule
-        const item_list& ruleItems = (*nextRule)->items();
-        
-        // Add the empty item if this is an empty rule
-        if (ruleItems.size() == 0) {
-            result.insert(an_empty_item_c);
-            continue;
-        }
-        
-        // Get the first set for the first item in this rule
-        const item_set& ruleFirst = gram.first(ruleItems[0]);
-
-        // Insert into the result
-        result.merge(ruleFirst);
-
-        if (ruleFirst.contains(an_empty_item_c)) {
-            // If there's an empty item, then merge the first sets from the later parts of the rule
-            int pos;
-            for (pos = 1; pos < (int) ruleItems.size(); ++pos) {
-                // Remove the empty item from the current set
-                result.erase(an_empty_item);
-                
-                // Get the first set for the next item
-                const item_set& nextFirst = gram.first(*(ruleItems[pos]));
-                
-                // Merge it with the current set
-                result.merge(nextFirst);
-                
-                // Stop if there's no longer an empty item
-                if (!nextFirst.contains(an_empty_item_c)) break;
-            }
-        }
+        // Merge in the first set for this rule (which contains the empty item only if everything in the rule can be empty)
+        result.merge(gram.first_for_rule(**nextRule));
     }
 
     return result;
-- 
2.43.0


From 7d279ebf4031ece98ab6bad7daed57168b8fb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:13 +0000
Subject: [PATCH 17/40] fix: compute the FIRST sets of recursive nonterminals
 completely

While the FIRST set of an item was being calculated, a recursive reference to
it saw an empty set, and sets calculated from that stayed incomplete in the
cache. Repeat the calculation until it no longer changes anything.
---
 TameParse/ContextFree/grammar.cpp | 21 +++++++++++++++++++++
 TameParse/ContextFree/grammar.h   |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f4cbff7..b864c61 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -245,9 +245,30 @@ const item_set& grammar::first(const item_container& item) const {
     // Not found: create an empty item set so recursive calls to this method terminate
     found = m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
     
+    // Remember that this set has just been added: it's incomplete if it depends on another set that's still being worked out
+    bool isOutermost = m_IncompleteFirstSets.empty();
+    m_IncompleteFirstSets.push_back(item);
+    
     // Ask the item for its first set, and update the cache
     found->second = item->first(*this);
     
+    // Recursive items might have used a first set before it was complete: repeat until there are no more changes
+    if (isOutermost) {
+        bool changed = true;
+        while (changed) {
+            changed = false;
+            
+            for (size_t itemId = 0; itemId < m_IncompleteFirstSets.size(); ++itemId) {
+                item_container  incomplete  = m_IncompleteFirstSets[itemId];
+                item_set        newSet      = incomplete->first(*this);
+                
+                if (m_CachedFirstSets.find(incomplete)->second.merge(newSet)) changed = true;
+            }
+        }
+        
+        m_IncompleteFirstSets.clear();
+    }
+    
     // Return the newly added item (have to do another lookup as map doesn't have a replace operator)
     return found->second;
 }
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 627ad86..e54e147 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -103,6 +103,9 @@ namespace contextfree {
         /// \brief Cached map of FIRST sets for this grammar
         mutable item_set_map m_CachedFirstSets;
         
+        /// \brief Items whose FIRST sets are currently being calculated (empty when no calculation is in progress)
+        mutable item_list m_IncompleteFirstSets;
+        
         /// \brief Cached map of FOLLOW sets for this grammar
         mutable item_set_map m_CachedFollowSets;
 
-- 
2.43.0


From a2e7d2dd6ce188e4707bbb29d9905b93d0dd03da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:30 +0000
Subject: [PATCH 18/40] fix: FOLLOW sets of the items inside a repetition

The items at the end of a repeated rule can be followed by the start of the
next repetition.
---
 TameParse/ContextFree/grammar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index b864c61..e265ce0 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -409,6 +409,11 @@ void grammar::fill_follow(const rule& rule, item_map<item_set>::type& dependenci
         const ebnf* ebnfItem = thisItem->cast_ebnf();
         if (ebnfItem) {
             for (ebnf::rule_iterator subRule = ebnfItem->first_rule(); subRule != ebnfItem->last_rule(); ++subRule) {
+                // A repetition can be followed by another copy of itself
+                if (thisItem->type() == item::repeat || thisItem->type() == item::repeat_zero_or_one) {
+                    followSet->second.merge(first_for_rule(**subRule));
+                }
+
                 fill_follow(**subRule, dependencies);
             }
         }
-- 
2.43.0


From 6c46e34fd39f02bc3fcc3c4d32460b0eb590b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:35 +0000
Subject: [PATCH 19/40] fix: report the conflict between accepting the input
 and reducing

---
 TameParse/Lr/conflict.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index c765e77..23a9289 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -105,7 +105,6 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         switch ((*nextAction)->type()) {
             case lr_action::act_goto:
             case lr_action::act_ignore:
-            case lr_action::act_accept:
                 ignore = true;
                 break;
                 
-- 
2.43.0


From 6f8e4233103bc9af302946fa2d493a8f4b74cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:29 +0000
Subject: [PATCH 20/40] fix: destroying a copied parser stack left its
 neighbour in the list dangling

---
 TameParse/Lr/parser_stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Lr/parser_stack.h b/TameParse/Lr/parser_stack.h
index 4e238fb..752d0e2 100644
--- a/TameParse/Lr/parser_stack.h
+++ b/TameParse/Lr/parser_stack.h
@@ -245,6 +245,7 @@ namespace lr {
         , m_Stack(stack) {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) m_Next->m_Last = this;
             m_Stack->m_RootReference = this;
         }
         
@@ -254,6 +255,7 @@ namespace lr {
         , m_Index(m_Stack->get_new()) {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) m_Next->m_Last = this;
             m_Stack->m_RootReference = this;
         }
         
@@ -263,6 +265,7 @@ namespace lr {
         , m_Index(copyFrom.m_Index) {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) m_Next->m_Last = this;
             m_Stack->m_RootReference = this;
         }
         
-- 
2.43.0


From 06bd6b961a1f0abd5a6b18ced9308e7b81445c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:52 +0000
Subject: [PATCH 21/40] fix: looking ahead past a reduction kept using the
 previous state's actions

---
 TameParse/Lr/parser_state.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 9d972c2..2f3d099 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -478,8 +478,7 @@ namespace lr {
                     // Update our 'fake state' to be whatever will happen due to this reduce
                     fake_reduce(act, stackPos, pushed, underlyingStack);
                     
-                    // Get the new state
-                    int state;
+                    // Get the new state (this also changes the list of actions we're looking through)
                     if (!pushed.empty()) {
                         // (This will always happen unless there's a bug in the parser tables)
                         state = pushed.top();
-- 
2.43.0


From a22e107a1436ce57b348b0526f0811b360d58f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:12 +0000
Subject: [PATCH 22/40] fix: a weak symbol could not stand for its strong
 symbol where it also had a weak reduction

---
 TameParse/Lr/weak_symbols.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e6b0a85..e9cce11 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -283,7 +283,7 @@ void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr
                 map<int, int>::iterator found = weakSymbols.find(sym);
                 if (found != weakSymbols.end()) {
                     found->second--;
-                    if (found->second < 0) {
+                    if (found->second <= 0) {
                         weakSymbols.erase(found);
                     }
                 }
-- 
2.43.0


From 84109d3b108eff4119b48c84af7cf2e0638ed272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 23/40] fix: symbols used only in a guard count as used

---
 TameParse/Compiler/language_stage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index f5e445c..c34f380 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -83,6 +83,12 @@ void language_stage::process_rule_symbols(const contextfree::rule& rule) {
                 process_rule_symbols(**ebnfRule);
             }
         }
+
+        // Recurse into guards: the symbols they look for are used as well
+        const guard* guardItem = (*item)->cast_guard();
+        if (guardItem) {
+            process_rule_symbols(*guardItem->get_rule());
+        }
     }
 }
 
-- 
2.43.0


From dda2c55dbeb142bf26ba552f3b49366c3ed94596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 24/40] fix: weak symbols that match several strong symbols are
 split once per pair, keep their actions and only stand for symbols that match

---
 TameParse/Lr/weak_symbols.cpp | 108 ++++++++++++++++++++++++++++------
 TameParse/Lr/weak_symbols.h   |   3 +
 2 files changed, 93 insertions(+), 18 deletions(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e9cce11..cd2f296 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -49,6 +49,7 @@ weak_symbols::weak_symbols(const item_map& map, const grammar* gram)
 weak_symbols::weak_symbols(const weak_symbols& copyFrom)
 : m_StrongToWeak(copyFrom.m_StrongToWeak)
 , m_WeakSymbols(copyFrom.m_WeakSymbols)
+, m_SplitSymbols(copyFrom.m_SplitSymbols)
 , m_Grammar(copyFrom.m_Grammar) {
 }
 
@@ -91,6 +92,9 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
     // Map of weak to strong symbols
     map<int, int> weakToStrong;
     
+    // The symbols that were split off from a weak symbol because it matches several strong symbols
+    map<pair<int, int>, int> splitSymbols;
+    
     // Iterate through all of the DFA states
     typedef ndfa::accept_action_list accept_actions;
     for (int state = 0; state < dfa.count_states(); ++state) {
@@ -100,26 +104,37 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
         // Ignore this state if it has no accepting actions
         if (accept.empty()) continue;
         
-        // Iterate through the accepting action list and determine the 'strongest' symbol
-        int         strongest   = 0x7fffffff;
-        set<int>    usedWeak;
+        // Iterate through the accepting action list and determine the 'strongest' symbol, and the weak symbol that will be accepted
+        int                     strongest       = 0x7fffffff;
+        const accept_action*    strongestAction = NULL;
+        const accept_action*    weakAction      = NULL;
+        set<int>                usedWeak;
         
         for (accept_actions::const_iterator action = accept.begin(); action != accept.end(); ++action) {
             int sym = (*action)->symbol();
             
-            // Ignore weak symbols
+            // Weak symbols don't count as strong ones
             if (weakIdentifiers.find(sym) != weakIdentifiers.end()) {
                 usedWeak.insert(sym);
+                if (!weakAction || *weakAction < **action) {
+                    weakAction = *action;
+                }
                 continue;
             }
             
-            // Lower symbol IDs are stronger than weaker ones, and the strongest ID is the one that will be accepted
-            // (Same as is defined in the ordering of accept_action)
-            if (sym < strongest) {
-                strongest = sym;
+            // The strongest symbol is the one that would be accepted if there were no weak symbols
+            if (!strongestAction || *strongestAction < **action) {
+                strongestAction = *action;
+                strongest       = sym;
             }
         }
         
+        // The weak symbol that will be accepted in this state, if any
+        int acceptedWeak = -1;
+        if (weakAction && (!strongestAction || *strongestAction < *weakAction)) {
+            acceptedWeak = weakAction->symbol();
+        }
+        
         // If no 'strongest' symbol was found, then all the symbols here are weak, and we can ignore this state
         if (strongest == 0x7fffffff)    continue;
         
@@ -131,25 +146,64 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
             if (weakToStrong.find(*weakSymbol) == weakToStrong.end()) {
                 // This is the first conflict between the two symbols. Just mark out the mapping.
                 weakToStrong[*weakSymbol] = strongest;
-            } else if (weakToStrong[*weakSymbol] != strongest) {
+            } else if (weakToStrong[*weakSymbol] != strongest && *weakSymbol == acceptedWeak) {
                 // The weak symbol is used somewhere else with a different meaning
-                // NOTE: this isn't ideal, as if there's an identical conflict somewhere else we generate more and more symbols for each conflicting
-                // state, while we only need one new symbol for each (weak, strong) pair.
+                // Split it so that there is a symbol for each (weak, strong) pair
+                pair<int, int> weakAndStrong(*weakSymbol, strongest);
                 
-                // Split the weak symbol so that we have two different meanings
-                int splitSymbolId = terminals.split(*weakSymbol);
+                if (splitSymbols.find(weakAndStrong) == splitSymbols.end()) {
+                    int newSymbolId = terminals.split(*weakSymbol);
+                    
+                    splitSymbols[weakAndStrong]     = newSymbolId;
+                    weakToStrong[newSymbolId]       = strongest;
+                    m_SplitSymbols[*weakSymbol].insert(newSymbolId);
+                    m_WeakSymbols.insert(item_container(new terminal(newSymbolId), true));
+                }
                 
                 // Change the accepting action for this state so that it accepts the new symbol
                 dfa.clear_accept(state);
-                dfa.accept(state, accept_action(splitSymbolId));
-                
-                // Map this in the weakToStrong table
-                weakToStrong[splitSymbolId] = strongest;
+                dfa.accept(state, accept_action(splitSymbols[weakAndStrong]));
+                break;
             }
         }
     }
     
-    // TODO: if a weak symbol maps to several strong identifiers, it needs to be split into several symbols
+    // In states where a weak symbol is accepted on its own it doesn't stand for any strong symbol. If it has an equivalent
+    // strong symbol elsewhere, then a symbol that has none is needed for these states.
+    map<int, int> unequivalentSymbols;
+    
+    for (int state = 0; state < dfa.count_states(); ++state) {
+        const accept_actions& accept = dfa.actions_for_state(state);
+        
+        // Find the weak symbol accepted in this state, and whether or not there are any strong symbols
+        const accept_action*    weakAction = NULL;
+        bool                    haveStrong = false;
+        
+        for (accept_actions::const_iterator action = accept.begin(); action != accept.end(); ++action) {
+            if (weakIdentifiers.find((*action)->symbol()) == weakIdentifiers.end()) {
+                haveStrong = true;
+            } else if (!weakAction || *weakAction < **action) {
+                weakAction = *action;
+            }
+        }
+        
+        if (!weakAction || haveStrong)                                      continue;
+        
+        int weakSymbol = weakAction->symbol();
+        if (weakToStrong.find(weakSymbol) == weakToStrong.end())            continue;
+        
+        // Split the symbol
+        if (unequivalentSymbols.find(weakSymbol) == unequivalentSymbols.end()) {
+            int newSymbolId = terminals.split(weakSymbol);
+            
+            unequivalentSymbols[weakSymbol] = newSymbolId;
+            m_SplitSymbols[weakSymbol].insert(newSymbolId);
+            m_WeakSymbols.insert(item_container(new terminal(newSymbolId), true));
+        }
+        
+        dfa.clear_accept(state);
+        dfa.accept(state, accept_action(unequivalentSymbols[weakSymbol]));
+    }
     
     // Fill in the strong map for each weak symbol
     for (map<int, int>::iterator weakStrong = weakToStrong.begin(); weakStrong != weakToStrong.end(); ++weakStrong) {
@@ -190,6 +244,24 @@ void weak_symbols::add_symbols(ndfa& dfa, const item_set& weak, terminal_diction
 /// there is a potential clash, then it's likely that the parser will be incorrect as weak reduce actions for
 /// the weak symbol will not be considered in many cases.
 void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr_builder& builder) const {
+    // The symbols that were split off from a weak symbol can be used in the same way as the symbol itself
+    if (!m_SplitSymbols.empty()) {
+        lr_action_set splitActions;
+        
+        for (lr_action_set::const_iterator act = actions.begin(); act != actions.end(); ++act) {
+            if ((*act)->item()->type() != item::terminal) continue;
+            
+            map<int, set<int> >::const_iterator split = m_SplitSymbols.find((*act)->item()->symbol());
+            if (split == m_SplitSymbols.end()) continue;
+            
+            for (set<int>::const_iterator splitSymbol = split->second.begin(); splitSymbol != split->second.end(); ++splitSymbol) {
+                splitActions.insert(lr_action_container(new lr_action(**act, item_container(new terminal(*splitSymbol), true)), true));
+            }
+        }
+        
+        actions.insert(splitActions.begin(), splitActions.end());
+    }
+    
     // Determine if there are any actions referring to strong symbols in this action set
     bool haveStrong = false;
     
diff --git a/TameParse/Lr/weak_symbols.h b/TameParse/Lr/weak_symbols.h
index a436dd8..d8fa73c 100644
--- a/TameParse/Lr/weak_symbols.h
+++ b/TameParse/Lr/weak_symbols.h
@@ -72,6 +72,9 @@ namespace lr {
         /// so it's necessary to maintain a separate list of the weak symbols.
         contextfree::item_set m_WeakSymbols;
 
+        /// \brief Maps weak symbols to the symbols that were split off from them (because they are also used as a different strong symbol)
+        std::map<int, std::set<int> > m_SplitSymbols;
+
         /// \brief The grammar that the symbols are from
         const contextfree::grammar* m_Grammar;
         
-- 
2.43.0


From 67610beb9e1c56e5723133b38ea6d3f9c30da560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 25/40] fix: weak symbols are rewritten after conflict
 attributes and ignored symbols

---
 TameParse/Compiler/lr_parser_stage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index ac3aba5..2f6ca3a 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -327,12 +327,15 @@ void lr_parser_stage::compile() {
     // Add the weak symbols and ignore items actions
     // TODO: it might be good to have a way to supply extra rewriters from other stages instead of just having them
     // hardcoded here. This is good enough for now, though.
-    m_Parser->add_rewriter(action_rewriter_container(m_LexerCompiler->weak_symbols(), false));
+    //
+    // The weak symbols come last: they stand for strong symbols whose actions must have been decided by then (and the
+    // conflict attributes have no effect on the weak reduce actions that the weak symbols produce)
     m_Parser->add_rewriter(action_rewriter_container(new conflict_attribute_rewriter(&m_Language->get_rule_item_data())));
     if (!cons().get_option(L"enable-lr1-resolver").empty()) {
         m_Parser->add_rewriter(action_rewriter_container(new lr1_rewriter()));
     }
     m_Parser->add_rewriter(ignoreContainer);
+    m_Parser->add_rewriter(action_rewriter_container(m_LexerCompiler->weak_symbols(), false));
 
     // Build the parser
     m_Parser->complete_parser();
-- 
2.43.0


From 609d6701d8226f8fc9262e6817a07c9c2a9fb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 26/40] fix: checking a nested guard keeps the lookahead it
 looks at alive

---
 TameParse/Lr/parser_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 2f3d099..12490cc 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -234,7 +234,7 @@ namespace lr {
         // Perform parser actions to decide if the guard is accepted or not
         for (;;) {
             // Fetch the lookahead
-            const lexeme_container& la = look(guardActions.offset());
+            lexeme_container la = look(guardActions.offset());
             
             // Get the current state
             int state = guardActions.current_state(this);
-- 
2.43.0


From ae980bb345c839dc57e4b09872a825a56603142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 27/40] fix: reports about implicitly defined terminals say
 where they are defined

---
 TameParse/Compiler/language_stage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index c34f380..25d3ccf 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -621,6 +621,9 @@ int language_stage::add_ebnf_lexer_items(yy_language::ebnf_item* item) {
             m_Lexer.add_definition(item->identifier(), lexer_item(lexer_item::regex, item->identifier(), false, false, symId, language_unit::unit_keywords_definition, true, ourFilename, item->start_pos()));
             m_UnusedSymbols.insert(symId);
 
+            // Store where it is defined
+            m_TerminalDefinition[symId] = pair<block*, wstring*>(item, ourFilename);
+
             // Set the type of this symbol
             m_TypeForTerminal[symId] = language_unit::unit_keywords_definition;
 
@@ -647,6 +650,9 @@ int language_stage::add_ebnf_lexer_items(yy_language::ebnf_item* item) {
             m_Lexer.add_definition(item->identifier(), lexer_item(lexer_item::literal, dequote, false, false, symId, language_unit::unit_keywords_definition, true, ourFilename, item->start_pos()));
             m_UnusedSymbols.insert(symId);
             
+            // Store where it is defined
+            m_TerminalDefinition[symId] = pair<block*, wstring*>(item, ourFilename);
+
             // Set the type of this symbol
             m_TypeForTerminal[symId] = language_unit::unit_keywords_definition;
             
-- 
2.43.0


From e81f68d567eb2c94629dc2bfdf022bce58fb24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 28/40] fix: undefined nonterminals are reported in the file
 that uses them

---
 TameParse/Compiler/language_stage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 25d3ccf..63af738 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -500,12 +500,13 @@ void language_stage::compile() {
             // Find the place where this nonterminal was first used
             block*          firstUsage  = m_FirstNonterminalUsage[nonterminalId].first;
             position        usagePos    = firstUsage?firstUsage->start_pos():position(-1, -1, -1);
+            wstring         usageFile   = firstUsage?*m_FirstNonterminalUsage[nonterminalId].second:filename();
             
             // Generate the message
             wstringstream   msg;
             msg << L"Undefined nonterminal: " << formatter::to_string(*ntItem, m_Grammar, m_Terminals);
             
-            cons().report_error(error(error::sev_error, filename(), L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
+            cons().report_error(error(error::sev_error, usageFile, L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
         }
     }
 
-- 
2.43.0


From 47d60f2ceef723abe3bad31f76dba44a51a50429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 29/40] fix: a language that inherits from itself is reported
 as an error

---
 TameParse/Compiler/language_stage.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 63af738..2816ba7 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -101,14 +101,26 @@ void language_stage::compile() {
         const wstring& inheritFrom = m_Language->inherits().front();
 
         // Fetch the language from the importer
-        // TODO: inheritance loops should produce an error (other than a stack overflow)
         const language_block* inheritBlock = m_Import->language_with_name(inheritFrom);
 
+        // Follow the chain of inheritance to see if it loops
+        set<const language_block*>  ancestors;
+        const language_block*       ancestor = inheritBlock;
+
+        while (ancestor && ancestors.insert(ancestor).second) {
+            ancestor = ancestor->inherits().empty()?NULL:m_Import->language_with_name(ancestor->inherits().front());
+        }
+
         // Report an error if the language is not defined
         if (!inheritBlock) {
             wstringstream msg;
             msg << L"Unable to find language '" << inheritFrom << "'";
             cons().report_error(error(error::sev_error, filename(), L"CANT_FIND_LANGUAGE", msg.str(), m_Language->start_pos()));
+        } else if (ancestor) {
+            // Also an error for the language to (eventually) inherit from itself
+            wstringstream msg;
+            msg << L"Language inherits from itself via '" << inheritFrom << "'";
+            cons().report_error(error(error::sev_error, filename(), L"RECURSIVE_INHERITANCE", msg.str(), m_Language->start_pos()));
         } else {
             // Compile the language this inherits from
             console_container consCopy(cons_container());
-- 
2.43.0


From 33f7e284b95fb869322dd0d99576bdfc7addb01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 30/40] fix: a guard that can begin with itself is reported as
 an error

---
 TameParse/Compiler/language_stage.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 2816ba7..ea83f8a 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -539,6 +539,30 @@ void language_stage::compile() {
         // Get the first set for the rule
         item_set firstSet = m_Grammar.first_for_rule(*theGuard->get_rule());
 
+        // Guards that can begin with themselves can never be evaluated
+        item_set        initialItems = firstSet;
+        vector<item_set> toSearch(1, firstSet);
+
+        while (!toSearch.empty() && !initialItems.contains(checkGuard->first)) {
+            item_set nextSet = toSearch.back();
+            toSearch.pop_back();
+
+            for (item_set::const_iterator nextItem = nextSet.begin(); nextItem != nextSet.end(); ++nextItem) {
+                // Search the guards that can begin this one
+                const guard* innerGuard = nextItem->cast_guard();
+                if (!innerGuard) continue;
+
+                item_set innerSet = m_Grammar.first_for_rule(*innerGuard->get_rule());
+                if (initialItems.merge(innerSet)) toSearch.push_back(innerSet);
+            }
+        }
+
+        if (initialItems.contains(checkGuard->first)) {
+            wstringstream msg;
+            msg << L"Guard '" << formatter::to_string(*theGuard, m_Grammar, m_Terminals) << "' can begin with itself and so can never be evaluated.";
+            cons().report_error(error(error::sev_error, *checkGuard->second.second, L"RECURSIVE_GUARD", msg.str(), checkGuard->second.first));
+        }
+
         // Could be a problem if it contains epsilon
         if (firstSet.contains(emptyId)) {
             if (theGuard->get_rule()->items().empty()) {
-- 
2.43.0


From 02c1bdebb1c697eee4066586355ebfe2bd6c9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 31/40] fix: lexer symbols defined in terms of themselves are
 reported as errors

---
 TameParse/Compiler/lexer_stage.cpp | 55 ++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/TameParse/Compiler/lexer_stage.cpp b/TameParse/Compiler/lexer_stage.cpp
index 27ba9f5..5522029 100644
--- a/TameParse/Compiler/lexer_stage.cpp
+++ b/TameParse/Compiler/lexer_stage.cpp
@@ -29,6 +29,8 @@
 //       (we don't do this at the moment to keep things reasonably simple, there's a lot of dependencies that means that DI
 //       wouldn't really fix the problem, and would just create a new 'giant constructor of doom' problem)
 
+#include <set>
+#include <stack>
 #include <sstream>
 #include "TameParse/Compiler/lexer_stage.h"
 
@@ -105,6 +107,18 @@ namespace compiler {
         }
     };
 
+    /// \brief Class that finds the names of the expressions that are used in a regular expression
+    class expression_finder : public ndfa_regex {
+    public:
+        /// \brief The expressions that were found
+        set<wstring> found;
+
+        virtual bool check_expression(const symbol_string& expression) {
+            found.insert(convert_syms(expression));
+            return true;
+        }
+    };
+
     /// \brief Class that extends ndfa_regex to support taking expressions from a lexer_data object
     class ndfa_lexer_compiler : public ndfa_regex {
     private:
@@ -114,10 +128,38 @@ namespace compiler {
         /// \brief The lexer data that should be used to compile expressions
         const lexer_data* m_Data;
 
+        /// \brief The expressions that are currently being compiled
+        set<symbol_string> m_Compiling;
+
     public:
         ndfa_lexer_compiler(const lexer_data* data)
         : m_Data(data) { }
 
+        /// \brief Returns true if the definition of the specified expression refers to the expression itself (directly or via other expressions)
+        bool is_recursive(const wstring& expression) const {
+            set<wstring>    seen;
+            stack<wstring>  toSearch;
+
+            toSearch.push(expression);
+            while (!toSearch.empty()) {
+                const item_list& items = m_Data->get_expressions(toSearch.top());
+                toSearch.pop();
+
+                // Find the expressions used by this expression
+                expression_finder finder;
+                for (item_list::const_iterator item = items.begin(); item != items.end(); ++item) {
+                    if (item->type == lexer_item::regex) finder.check_regex(item->definition);
+                }
+
+                for (set<wstring>::const_iterator used = finder.found.begin(); used != finder.found.end(); ++used) {
+                    if (*used == expression) return true;
+                    if (seen.insert(*used).second) toSearch.push(*used);
+                }
+            }
+
+            return false;
+        }
+
         /// \brief Compiles the value of a {} expression
         virtual bool compile_expression(const symbol_string& expression, builder& cons) {
             // Look up the expression in the lexer data
@@ -126,6 +168,9 @@ namespace compiler {
             // Use the standard behaviour if we don't find any items
             if (items.empty()) return ndfa_regex::compile_expression(expression, cons);
 
+            // Recursive expressions can't be compiled (these are reported as errors elsewhere)
+            if (!m_Compiling.insert(expression).second) return true;
+
             // Remember the current state of the builder
             bool isLower = cons.make_lowercase();
             bool isUpper = cons.make_uppercase();
@@ -169,6 +214,7 @@ namespace compiler {
             // Done: reset the constructor
             cons.set_case_options(isLower, isUpper);
             cons.pop();
+            m_Compiling.erase(expression);
 
             // Found an expression
             return true;
@@ -300,8 +346,17 @@ void lexer_stage::compile() {
 
     // Iterate through all of the expressions defined in the language
     for (lexer_data::iterator itemList = lex->begin_expr(); itemList != lex->end_expr(); ++itemList) {
+        // Expressions can't be defined in terms of themselves
+        bool recursive = stage0->is_recursive(itemList->first);
+
         // Iterate through each individual item
         for (item_list::const_iterator item = itemList->second.begin(); item != itemList->second.end(); ++item) {
+            if (recursive) {
+                wstringstream msg;
+                msg << L"Lexer symbol is defined in terms of itself: '" << itemList->first << L"'";
+                cons().report_error(error(error::sev_error, item->filename?*item->filename:filename(), L"BAD_REGULAR_EXPRESSION", msg.str(), item->position));
+            }
+
             // Check the regular expressions for validity
             if (item->type == lexer_item::regex) {
                 check_regex(stage0, item->definition, item->filename, item->position);
-- 
2.43.0


From f7f86ebb2c98344b42589e68861e4d2cfa2f25a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 32/40] fix: generated lexers have a row for every state

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 435087b..d6f92a4 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -519,15 +519,23 @@ void output_cplusplus::source_lexer_state_machine() {
     // Finish off the table
     *m_SourceFile << "\n    };\n";
 
-    // Add a final state to point to the end of the array
-    stateToEntryOffset.push_back(entryPos);
+    // Count the states
+    size_t numStates = 0;
+    for (lexer_state_action_iterator act = begin_lexer_state_action(); act != end_lexer_state_action(); ++act) {
+        ++numStates;
+    }
+
+    // Any states at the end with no transitions have no entries; add a final state to point to the end of the array
+    while (stateToEntryOffset.size() <= numStates) {
+        stateToEntryOffset.push_back(entryPos);
+    }
 
     // Write out the rows table
-    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size()-1 << "] = {\n        ";
+    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size() << "] = {\n        ";
 
     // Write the actual rows
     bool first = true;
-    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end()-1; ++offset) {
+    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end(); ++offset) {
         // Commas between entries
         if (!first) *m_SourceFile << ", ";
 
@@ -565,11 +573,11 @@ void output_cplusplus::source_lexer_state_machine() {
 
     // Create a state machine
     *m_SourceFile << "\ntypedef dfa::state_machine_tables<wchar_t, dfa::hard_coded_symbol_table<wchar_t, 2> > lexer_state_machine;\n";
-    *m_SourceFile << "static const lexer_state_machine s_StateMachine(s_SymbolMap, s_LexerStates, " << stateToEntryOffset.size()-1 << ");\n";
+    *m_SourceFile << "static const lexer_state_machine s_StateMachine(s_SymbolMap, s_LexerStates, " << numStates << ");\n";
 
     // Create the lexer itself
     *m_SourceFile << "\ntypedef dfa::dfa_lexer_base<const lexer_state_machine&, 0, 0, false, const lexer_state_machine&> lexer_definition;\n";
-    *m_SourceFile << "static lexer_definition s_LexerDefinition(s_StateMachine, " << stateToEntryOffset.size()-1 << ", s_AcceptingStates);\n";
+    *m_SourceFile << "static lexer_definition s_LexerDefinition(s_StateMachine, " << numStates << ", s_AcceptingStates);\n";
 
     // Finally, the lexer class itself
     *m_SourceFile << "\nconst dfa::lexer " << get_identifier(m_ClassName, false) << "::lexer(&s_LexerDefinition, false);\n";
-- 
2.43.0


From f9c0323566fe844042982b9207748793afbd797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 33/40] fix: generated parsers compile when rules share item
 names or only differ in their guards

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 64 +++++++++----------
 TameParse/Compiler/output_stage.cpp           |  9 ++-
 2 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index d6f92a4..4fb046a 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -923,6 +923,10 @@ void output_cplusplus::header_ast_forward_declarations() {
                     << "        virtual dfa::position final_pos() const;\n"
                     << "    };\n";
 
+    // Several rules of a nonterminal can have the same items (eg, if only their guards are different), so this is used to select a constructor
+    *m_HeaderFile   << "\n"
+                    << "    template<int rule> class rule_tag { };\n";
+
     // Create a class that will represent a terminal item
     *m_HeaderFile   << "\n"
                     << "    class terminal : public syntax_node {\n"
@@ -1036,6 +1040,9 @@ void output_cplusplus::header_ast_class_declarations() {
         // The names of the variables that are defined for this rule
         set<string> definedVariables;
 
+        // Set to true once the position field has been declared
+        bool declaredPosition = false;
+
         // Iterate through the rules
         for (ast_nonterminal_rules::const_iterator ruleDefn = ntDefn.rules.begin(); ruleDefn != ntDefn.rules.end(); ++ruleDefn) {
             int ruleIdentifier = ruleDefn->first;
@@ -1079,9 +1086,9 @@ void output_cplusplus::header_ast_class_declarations() {
             }
 
             // If there are no valid items then we need to declare a position field
-            if (!validItems) {
-                // Presumably there's only one of these
-                *m_HeaderFile << "        dfa::position m_Position;";
+            if (!validItems && !declaredPosition) {
+                *m_HeaderFile << "        dfa::position m_Position;\n";
+                declaredPosition = true;
             }
 
             // Declare the constructor for this rule if necessary
@@ -1108,10 +1115,9 @@ void output_cplusplus::header_ast_class_declarations() {
             // Declare a constructor for this rule
             if (declareConstructor) {
                 *m_HeaderFile   << "\n    public:\n"
-                                << "        " << ntContentClass << "(";
+                                << "        " << ntContentClass << "(const rule_tag<" << ruleIdentifier << ">&";
                 
                 // Iterate through the items in this rule
-                bool    first = true;
                 int     index = 0;
                 for (ast_rule_item_list::const_iterator ruleItem = ruleDefn->second.begin(); ruleItem != ruleDefn->second.end(); ++ruleItem) {
                     // Ignore guards
@@ -1124,22 +1130,16 @@ void output_cplusplus::header_ast_class_declarations() {
                     string varName  = get_identifier(ruleItem->uniqueName, false);
                     string typeName = class_name_for_item(ruleItem->item);
 
-                    // Add to the list of parameters
-                    if (!first) {
-                        *m_HeaderFile << ", ";
-                    }
-
                     // Declare as a reference to the syntax pointer
-                    *m_HeaderFile << "const util::syntax_ptr<class " << typeName << s_TypeSuffix << ">& " << typeName << "_" << index;
+                    *m_HeaderFile << ", const util::syntax_ptr<class " << typeName << s_TypeSuffix << ">& " << typeName << "_" << index;
 
-                    // No longer the first rule
-                    first = false;
+                    // Move on
                     index++;
                 }
 
                 // If there were no valid items, then we need to add a position to this constructor
                 if (!validItems) {
-                    *m_HeaderFile << "const dfa::position& pos";
+                    *m_HeaderFile << ", const dfa::position& pos";
                 }
 
                 *m_HeaderFile << ");\n";
@@ -1243,10 +1243,9 @@ void output_cplusplus::source_ast_class_constructors() {
 
             // Write out the declaration for this constructor
             *m_SourceFile << "\n// Rule " << ruleDefn->first << "\n";
-            *m_SourceFile << get_identifier(m_ClassName, false) << "::" << ntName << "::" << ntName << "(";
+            *m_SourceFile << get_identifier(m_ClassName, false) << "::" << ntName << "::" << ntName << "(const rule_tag<" << ruleDefn->first << ">&";
 
             // Generate the parameters for the constructor by iterating through the items in the rule
-            bool    first = true;
             int     index = 0;
             for (ast_rule_item_list::const_iterator ruleItem = ruleDefn->second.begin(); ruleItem != ruleDefn->second.end(); ++ruleItem) {
                 // Ignore guards
@@ -1259,22 +1258,16 @@ void output_cplusplus::source_ast_class_constructors() {
                 string varName  = get_identifier(ruleItem->uniqueName, false);
                 string typeName = class_name_for_item(ruleItem->item);
 
-                // Add to the list of parameters
-                if (!first) {
-                    *m_SourceFile << ", ";
-                }
-
                 // Declare as a reference to the syntax pointer
-                *m_SourceFile << "const util::syntax_ptr<class " << typeName << s_TypeSuffix << ">& " << typeName << "_" << index;
+                *m_SourceFile << ", const util::syntax_ptr<class " << typeName << s_TypeSuffix << ">& " << typeName << "_" << index;
 
-                // No longer the first rule
-                first = false;
+                // Move on
                 index++;
             }
 
             // If there were no valid items, then we need to add a position to this constructor
             if (index == 0) {
-                *m_SourceFile << "const dfa::position& pos";
+                *m_SourceFile << ", const dfa::position& pos";
             }
 
             *m_SourceFile << ")\n";
@@ -1579,12 +1572,20 @@ void output_cplusplus::source_reduce_actions() {
 
             // Construct the content item for any item with a constructor, or all of the items for a repeating item
             if (hasConstructor || nonterm->item->type() == item::repeat) {
+                // The constructor is the one for this rule, except that both rules of a '+' closure use the constructor of the initial rule
+                int constructorRule = ruleDefn->first;
+                if (!hasConstructor) {
+                    for (ast_nonterminal_rules::const_iterator initialRule = ntDefn.rules.begin(); initialRule != ntDefn.rules.end(); ++initialRule) {
+                        if (!initialRule->second[0].isEbnfRepetition) constructorRule = initialRule->first;
+                    }
+                }
+
                 if (nonterm->item->type() == item::repeat || nonterm->item->type() == item::repeat_zero_or_one) {
                     // For repeating items, we construct the content into a variable
-                    *m_SourceFile << "        util::syntax_ptr<class " << ntContentClass << "> content(new " << ntContentClass << "(";
+                    *m_SourceFile << "        util::syntax_ptr<class " << ntContentClass << "> content(new " << ntContentClass << "(rule_tag<" << constructorRule << ">()";
                 } else {
                     // For non-repeating items, just return the item directly
-                    *m_SourceFile << "        return node(new " << ntContentClass << "(";
+                    *m_SourceFile << "        return node(new " << ntContentClass << "(rule_tag<" << constructorRule << ">()";
                 }
 
                 // Generate the constructor parameters
@@ -1602,22 +1603,19 @@ void output_cplusplus::source_reduce_actions() {
                     // Other items are put into the constructor
                     string typeName = class_name_for_item(ruleItem.item);
 
-                    // Add commas to separate the values
-                    if (!first) {
-                        *m_SourceFile << ", ";
-                    }
+                    // At least one item is passed in
                     first = false;
 
                     // The reduce list is passed in in reverse
                     size_t reduceIndex = ruleDefn->second.size() - index - 1;
 
                     // Cast to the type
-                    *m_SourceFile  << "reduce[" << reduceIndex << "].cast_to<" << typeName << s_TypeSuffix << ">()";
+                    *m_SourceFile  << ", reduce[" << reduceIndex << "].cast_to<" << typeName << s_TypeSuffix << ">()";
                 }
 
                 // If there aren't any valid items, then pass in the lookahead position (these items will take a position parameter)
                 if (first) {
-                    *m_SourceFile << "lookaheadPosition";
+                    *m_SourceFile << ", lookaheadPosition";
                 }
 
                 *m_SourceFile << "));\n";
diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index 3a82338..7f5434a 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -468,6 +468,9 @@ void output_stage::generate_ast_rules() {
         // Set it up
         thisNt.nonterminalId = nonterminalId;
 
+        /// The items that the names in this nonterminal have been used for (a name always refers to the same item)
+        map<wstring, item_container> itemForName;
+
         for (rule_list::iterator nextRule = rulesForNonterminal[nonterminalId].begin(); nextRule != rulesForNonterminal[nonterminalId].end(); ++nextRule) {
             // Get the identifier for this rule
             int ruleId = gram().identifier_for_rule(*nextRule);
@@ -496,8 +499,9 @@ void output_stage::generate_ast_rules() {
                 wstring uniqueName  = baseName;
                 int     offset      = 1;
 
-                while (usedNames.find(uniqueName) != usedNames.end() || !name_is_valid(uniqueName)) {
-                    // Append _2, etc if this name has already been encountered in this rule or is invalid
+                while (usedNames.find(uniqueName) != usedNames.end() || !name_is_valid(uniqueName) 
+                    || (itemForName.find(uniqueName) != itemForName.end() && *itemForName.find(uniqueName)->second != **ruleItem)) {
+                    // Append _2, etc if this name has already been encountered in this rule, is used for a different item or is invalid
                     offset++;
 
                     // Generate a new unique name
@@ -509,6 +513,7 @@ void output_stage::generate_ast_rules() {
 
                 // Remember the unique name
                 usedNames.insert(uniqueName);
+                itemForName.insert(pair<const wstring, item_container>(uniqueName, *ruleItem));
 
                 // Set the 'EBNF repetition' flag
                 bool isEbnfRepeat = false;
-- 
2.43.0


From 03b0631af7bee10e7c3c52fcfe06121488e35aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 34/40] fix: generated parsers create nodes of the right type
 for split symbols

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 4fb046a..819ce95 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1495,8 +1495,15 @@ void output_cplusplus::source_shift_actions() {
         name += s_TypeSuffix;
 
         // Declare a shift action for this symbol
-        *m_SourceFile   << "\n    case " << term->identifier << ": // " << get_identifier(terminals().name_for_symbol(term->identifier), true) << "\n"
-                        << "        return node(new " << name << "(lexeme));\n";
+        *m_SourceFile   << "\n    case " << term->identifier << ": // " << get_identifier(terminals().name_for_symbol(term->identifier), true) << "\n";
+
+        // Symbols that were split off from this one (weak symbols can be split) are represented by the same type
+        const contextfree::terminal_dictionary::symbol_set& children = terminals().children_of(term->identifier);
+        for (contextfree::terminal_dictionary::symbol_set::const_iterator child = children.begin(); child != children.end(); ++child) {
+            *m_SourceFile << "    case " << *child << ":\n";
+        }
+
+        *m_SourceFile   << "        return node(new " << name << "(lexeme));\n";
     }
                     
     // Default actions is to create an empty node
-- 
2.43.0


From 196c7ab9931d0015bca8392e598a3cc8b0edc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 35/40] fix: lists in generated parsers start where their first
 item does

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 819ce95..dde9a9e 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1353,7 +1353,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
+                if (ruleItem->isEbnfRepetition) {
                     continue;
                 }
 
@@ -1395,7 +1395,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
+                if (ruleItem->isEbnfRepetition) {
                     continue;
                 }
 
@@ -1633,7 +1633,9 @@ void output_cplusplus::source_reduce_actions() {
                 // The constructor is delcared for the item that contains the repetition
                 if (!hasConstructor && nonterm->item->type() == item::repeat_zero_or_one) {
                     // This is the empty rule in a zero-or-more repetition: create an empty item
-                    *m_SourceFile << "        return node(new " << ntName << "());\n";
+                    *m_SourceFile   << "        " << ntName << "* list = new " << ntName << "();\n"
+                                    << "        list->set_position(lookaheadPosition);\n"
+                                    << "        return node(list);\n";
                 } else {
                     // Get the node where the definition is being built up
                     *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(";
-- 
2.43.0


From 976f2f7dc97bf2a09f03c26ae9cae6f7b46d3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 36/40] fix: fields in generated parsers are named by the rules
 in force

---
 TameParse/Compiler/output_stage.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index 7f5434a..489ca0f 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -446,11 +446,22 @@ void output_stage::generate_ast_rules() {
     // Iterate through the rules
     for (int ruleId = 0; ruleId < gram().max_rule_identifier(); ++ruleId) {
         // Fetch this rule
-        const rule_container& nextRule = gram().rule_with_identifier(ruleId);
+        rule_container nextRule = gram().rule_with_identifier(ruleId);
         
         // Get the nonterminal ID
         int nonterminalId = gram().identifier_for_item(nextRule->nonterminal());
         if (nonterminalId > maxNtId) maxNtId = nonterminalId;
+
+        // If the rule was replaced by one with the same items, then the attributes are those of the replacement
+        if (nextRule->nonterminal()->type() == item::nonterminal) {
+            const rule_list& currentRules = gram().rules_for_nonterminal(nonterminalId);
+            for (rule_list::const_iterator current = currentRules.begin(); current != currentRules.end(); ++current) {
+                if (**current == *nextRule) {
+                    nextRule = *current;
+                    break;
+                }
+            }
+        }
         
         // Append to the list
         rulesForNonterminal[nonterminalId].push_back(nextRule);
-- 
2.43.0


From 55c966889a6fee8b0f9836b7a1aa097b3f05f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:25 +0000
Subject: [PATCH 37/40] fix: fields in generated parsers have different names
 if their names differ only in punctuation

---
 TameParse/Compiler/OutputStages/cplusplus.cpp |  6 ++++++
 TameParse/Compiler/OutputStages/cplusplus.h   |  5 +++++
 TameParse/Compiler/output_stage.cpp           | 14 ++++++++++----
 TameParse/Compiler/output_stage.h             |  5 +++++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index dde9a9e..dc52376 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -220,6 +220,12 @@ bool output_cplusplus::name_is_valid(const std::wstring& name) {
     return true;
 }
 
+/// \brief Returns the identifier that will be used for the specified name in the output
+std::wstring output_cplusplus::identifier_for_name(const std::wstring& name) {
+    string identifier = get_identifier(name, false);
+    return wstring(identifier.begin(), identifier.end());
+}
+
 //              ================
 //               General output
 //              ================
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index 7908d0d..fb8a037 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -85,6 +85,11 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Returns the identifier that will be used for the specified name in the output
+        ///
+        /// Different names can have the same identifier if the output cannot represent all of their characters
+        virtual std::wstring identifier_for_name(const std::wstring& name);
+
     private:
         /// \brief Writes out the terminal symbols definitions to the header file
         void header_terminal_symbols();
diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index 489ca0f..d413f1d 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -436,6 +436,12 @@ bool output_stage::name_is_valid(const std::wstring& name) {
     return !name.empty();
 }
 
+/// \brief Returns the identifier that will be used for the specified name in the output
+std::wstring output_stage::identifier_for_name(const std::wstring& name) {
+    // Names are used as they are by default
+    return name;
+}
+
 /// \brief Generates the rules for each nonterminal
 void output_stage::generate_ast_rules() {
     // Maps nonterminals to their corresponding rules
@@ -510,8 +516,8 @@ void output_stage::generate_ast_rules() {
                 wstring uniqueName  = baseName;
                 int     offset      = 1;
 
-                while (usedNames.find(uniqueName) != usedNames.end() || !name_is_valid(uniqueName) 
-                    || (itemForName.find(uniqueName) != itemForName.end() && *itemForName.find(uniqueName)->second != **ruleItem)) {
+                while (usedNames.find(identifier_for_name(uniqueName)) != usedNames.end() || !name_is_valid(uniqueName) 
+                    || (itemForName.find(identifier_for_name(uniqueName)) != itemForName.end() && *itemForName.find(identifier_for_name(uniqueName))->second != **ruleItem)) {
                     // Append _2, etc if this name has already been encountered in this rule, is used for a different item or is invalid
                     offset++;
 
@@ -523,8 +529,8 @@ void output_stage::generate_ast_rules() {
                 }
 
                 // Remember the unique name
-                usedNames.insert(uniqueName);
-                itemForName.insert(pair<const wstring, item_container>(uniqueName, *ruleItem));
+                usedNames.insert(identifier_for_name(uniqueName));
+                itemForName.insert(pair<const wstring, item_container>(identifier_for_name(uniqueName), *ruleItem));
 
                 // Set the 'EBNF repetition' flag
                 bool isEbnfRepeat = false;
diff --git a/TameParse/Compiler/output_stage.h b/TameParse/Compiler/output_stage.h
index a0b6bee..de25a56 100644
--- a/TameParse/Compiler/output_stage.h
+++ b/TameParse/Compiler/output_stage.h
@@ -159,6 +159,11 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Returns the identifier that will be used for the specified name in the output
+        ///
+        /// Different names can have the same identifier if the output cannot represent all of their characters
+        virtual std::wstring identifier_for_name(const std::wstring& name);
+
     protected:
         // Functions that represent various steps of the output of a language.
         // These are intended to make it easy to write out a file in the specified language.
-- 
2.43.0


From 6581deda4e8d748e7f0018f2d3b289b2c9f2036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:27 +0000
Subject: [PATCH 38/40] fix: output files that cannot be written are reported
 as errors

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 29 +++++++++++++++++--
 TameParse/Compiler/OutputStages/cplusplus.h   |  6 ++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index dc52376..762fee9 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -50,7 +50,8 @@ output_cplusplus::output_cplusplus(console_container& console, const std::wstrin
 , m_ClassName(className)
 , m_Namespace(namespaceName)
 , m_SourceFile(NULL)
-, m_HeaderFile(NULL) {
+, m_HeaderFile(NULL)
+, m_OutputFailed(false) {
 }
 
 /// \brief Destructor
@@ -245,6 +246,18 @@ void output_cplusplus::write_header(const std::wstring& filename, std::ostream*
     (*target) << "///\n\n";
 }
 
+/// \brief Reports an error if the specified output stream is missing or has failed
+void output_cplusplus::check_output(const wstring& filename, ostream*& stream, const wchar_t* code, const wchar_t* message) {
+    // Nothing to report if the stream is OK
+    if (stream && !stream->fail()) return;
+
+    m_OutputFailed = true;
+    cons().report_error(error(error::sev_fatal, filename, code, message, position(-1, -1, -1)));
+
+    // The rest of this stage always needs a stream to write to
+    if (!stream) stream = new stringstream();
+}
+
 /// \brief About to begin writing out output
 void output_cplusplus::begin_output() {
     // Clean up if there are existing files for any reasom
@@ -253,6 +266,7 @@ void output_cplusplus::begin_output() {
 
     m_SourceFile = NULL;
     m_HeaderFile = NULL;
+    m_OutputFailed = false;
 
     // Create the source files
     wstring sourceFilename = m_FilenamePrefix + L".cpp";
@@ -262,7 +276,9 @@ void output_cplusplus::begin_output() {
     m_SourceFile = cons().open_binary_file_for_writing(sourceFilename);
     m_HeaderFile = cons().open_binary_file_for_writing(headerFilename);
 
-    // TODO: check for errors (file streams will be NULL)
+    // Report an error if either of the files could not be opened
+    check_output(sourceFilename, m_SourceFile, L"CANT_OPEN_OUTPUT_FILE", L"Cannot write to file");
+    check_output(headerFilename, m_HeaderFile, L"CANT_OPEN_OUTPUT_FILE", L"Cannot write to file");
 
     // Write out a header
     write_header(sourceFilename, m_SourceFile);
@@ -305,6 +321,15 @@ void output_cplusplus::end_output() {
     }
 
     *m_HeaderFile << "\n#endif\n";    // End of the conditional
+
+    // Make sure that everything was actually written (errors opening the files have already been reported)
+    if (!m_OutputFailed) {
+        m_SourceFile->flush();
+        m_HeaderFile->flush();
+
+        check_output(m_FilenamePrefix + L".cpp", m_SourceFile, L"CANT_WRITE_OUTPUT_FILE", L"Error while writing file");
+        check_output(m_FilenamePrefix + L".h", m_HeaderFile, L"CANT_WRITE_OUTPUT_FILE", L"Error while writing file");
+    }
 }
 
 
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index fb8a037..a3cc01f 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -56,6 +56,9 @@ namespace compiler {
         /// \brief The header file
         std::ostream* m_HeaderFile;
 
+        /// \brief True if one of the output files could not be opened
+        bool m_OutputFailed;
+
         /// \brief Maps item IDs to their class identifiers
         std::map<int, std::string> m_ClassNameForItem;
 
@@ -91,6 +94,9 @@ namespace compiler {
         virtual std::wstring identifier_for_name(const std::wstring& name);
 
     private:
+        /// \brief Reports an error if the specified output stream is missing or has failed
+        void check_output(const std::wstring& filename, std::ostream*& stream, const wchar_t* code, const wchar_t* message);
+
         /// \brief Writes out the terminal symbols definitions to the header file
         void header_terminal_symbols();
 
-- 
2.43.0


From 3af599544c653986cf6b6c6994859f288071e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:27 +0000
Subject: [PATCH 39/40] fix: the parser trace can report that the end of the
 input was rejected

---
 TameParse/Lr/parser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1cf83f3..8785d14 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -108,6 +108,12 @@ namespace lr {
         }
 
         inline void reject(const lexeme_container& lookahead) {
+            // There is no lexeme at the end of the input
+            if (!lookahead.item()) {
+                std::wcerr << L"REJECT: end of input" << std::endl;
+                return;
+            }
+
             std::wcerr << L"REJECT: " << lookahead->content<wchar_t>() << L" (" << lookahead->matched() << L")" << std::endl;
             std::wcerr << L"At line: " << lookahead->pos().line() << std::endl;
         }
-- 
2.43.0


From 37d37b1b49333496bcc530702a1a518e175a8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:27 +0000
Subject: [PATCH 40/40] fix: mistakes in the options are reported with the name
 of the option

---
 parsetool/boost_console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index f9e1d6a..0695c62 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -121,7 +121,7 @@ boost_console::boost_console(int argc, const char** argv)
     try {
         po::store(po::command_line_parser(argc, (char**)argv).options(cmdLine).positional(positional).run(), m_VarMap);
         po::notify(m_VarMap);
-    } catch (po::error e) {
+    } catch (const po::error& e) {
         cerr << e.what() << endl << endl;
         cout << help << endl;
         ::exit(1);
-- 
2.43.0

