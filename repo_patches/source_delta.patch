From 287d1a36331b5f45bc4e717e7a4ca90d19c5cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 1/8] fix: accept RFC 2141 three-letter identifiers starting
 with "u" other than "urn"

---
 machine.go    | 4 +++-
 machine.go.rl | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index aec1ba6..0e7f3d9 100644
--- a/machine.go
+++ b/machine.go
@@ -2,6 +2,7 @@ package urn
 
 import (
 	"fmt"
+	"strings"
 
 	scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -4360,7 +4361,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
 			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			// - the chars in between spell "urn" (whatever case), rather than any other identifier starting with an "u"
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..58acca4 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -2,6 +2,7 @@ package urn
 
 import (
     "fmt"
+    "strings"
 
     scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -50,7 +51,8 @@ action throw_pre_urn_err {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
         // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        // - the chars in between spell "urn" (whatever case), rather than any other identifier starting with an "u"
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From 2fc83cfdea33e157265a870b84214127a18883f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 2/8] fix: report an error for malformed RFC 8141 components
 rather than a nil URN with a nil error

---
 machine.go    | 5 +++++
 machine.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/machine.go b/machine.go
index 0e7f3d9..b3f699e 100644
--- a/machine.go
+++ b/machine.go
@@ -25,6 +25,7 @@ var (
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	err8141Malformed       = "expecting well-formed r-, q-, and f-components (starting with the ?+, ?=, and # sequences) [col %d]"
 )
 var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
@@ -5028,6 +5029,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// The FSM stopped where no specific error is attached (e.g., a dangling "?" or a second "#")
+			m.err = fmt.Errorf(err8141Malformed, m.p)
+		}
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index 58acca4..ca81fb2 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -25,6 +25,7 @@ var (
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    err8141Malformed       = "expecting well-formed r-, q-, and f-components (starting with the ?+, ?=, and # sequences) [col %d]"
 )
 
 %%{
@@ -368,6 +369,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        if m.err == nil {
+            // The FSM stopped where no specific error is attached (e.g., a dangling "?" or a second "#")
+            m.err = fmt.Errorf(err8141Malformed, m.p)
+        }
         return nil, m.err
     }
 
-- 
2.43.0


From 297d3108ae78032efd2a70fb06b3ebfc1852374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 3/8] fix: make the Default (or an unknown) parsing mode parse
 as DefaultParsingMode

---
 machine.go    | 5 +++++
 machine.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/machine.go b/machine.go
index b3f699e..4175426 100644
--- a/machine.go
+++ b/machine.go
@@ -5041,6 +5041,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 func (m *machine) WithParsingMode(x ParsingMode) {
 	m.parsingMode = x
+	switch x {
+	case RFC2141Only, RFC8141Only, RFC7643Only:
+	default:
+		m.parsingMode = DefaultParsingMode
+	}
 	switch m.parsingMode {
 	case RFC2141Only:
 		m.startParsingAt = enMain
diff --git a/machine.go.rl b/machine.go.rl
index ca81fb2..2fa998e 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -381,6 +381,11 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 func (m *machine) WithParsingMode(x ParsingMode) {
     m.parsingMode = x
+    switch x {
+        case RFC2141Only, RFC8141Only, RFC7643Only:
+        default:
+            m.parsingMode = DefaultParsingMode
+    }
     switch m.parsingMode {
         case RFC2141Only:
             m.startParsingAt = en_main
-- 
2.43.0


From 2085111949692a59b2a9c11b567de3c31eb2a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 4/8] fix: do not write into the input buffer while parsing

---
 machine.go    | 3 ++-
 machine.go.rl | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index 4175426..e4159d0 100644
--- a/machine.go
+++ b/machine.go
@@ -138,7 +138,8 @@ func (m *machine) text() []byte {
 
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
-	m.data = input
+	// Copy the input: while normalizing, the FSM temporarily changes its buffer
+	m.data = append([]byte(nil), input...)
 	m.p = 0
 	m.pb = 0
 	m.pe = len(input)
diff --git a/machine.go.rl b/machine.go.rl
index 2fa998e..886de5c 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -355,7 +355,8 @@ func (m *machine) text() []byte {
 
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
-    m.data = input
+    // Copy the input: while normalizing, the FSM temporarily changes its buffer
+    m.data = append([]byte(nil), input...)
     m.p = 0
     m.pb = 0
     m.pe = len(input)
-- 
2.43.0


From b3372780179a277ef359ad01dd4f0455d626f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 5/8] fix: do not panic marshaling the URN8141 zero value

---
 urn8141.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urn8141.go b/urn8141.go
index da4dd06..bfee334 100644
--- a/urn8141.go
+++ b/urn8141.go
@@ -12,6 +12,10 @@ type URN8141 struct {
 }
 
 func (u URN8141) MarshalJSON() ([]byte, error) {
+	if u.URN == nil {
+		// Zero value, like for the other types
+		return json.Marshal("")
+	}
 	return json.Marshal(u.String())
 }
 
-- 
2.43.0


From aa7393cd89011c217efb0b0f8067fd88bc60c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 6/8] fix: normalize (and compare) URNs not coming directly
 from a parsing, too

---
 urn.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index 894d625..1d89fce 100644
--- a/urn.go
+++ b/urn.go
@@ -37,13 +37,32 @@ func (u *URN) Normalize() *URN {
 	return &URN{
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
-		SS:     u.norm,
+		SS:     normalizeSS(u.SS),
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
 	}
 }
 
+// normalizeSS lowercases the percent-encoded (<hex>) tokens of the given namespace specific string.
+//
+// This way also URNs built by hand, modified after the parsing, or already normalized have a norm version.
+func normalizeSS(ss string) string {
+	norm := []byte(ss)
+	for i := 0; i+2 < len(norm); i++ {
+		if norm[i] == '%' {
+			for _, j := range []int{i + 1, i + 2} {
+				if 'A' <= norm[j] && norm[j] <= 'Z' {
+					norm[j] += 'a' - 'A'
+				}
+			}
+			i += 2
+		}
+	}
+
+	return string(norm)
+}
+
 // Equal checks the lexical equivalence of the current URN with another one.
 func (u *URN) Equal(x *URN) bool {
 	if x == nil {
-- 
2.43.0


From 262b5713909742b050dc61eb45d943800a3734b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 7/8] fix: keep the letter case of the prefix of informal RFC
 8141 URNs (urn-N)

---
 machine.go    | 5 ++++-
 machine.go.rl | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index e4159d0..61c2ecf 100644
--- a/machine.go
+++ b/machine.go
@@ -4162,7 +4162,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f2:
 
-		output.prefix = string(m.text())
+		// Only once: an informal namespace identifier (urn-N) matches here, too
+		if output.prefix == "" {
+			output.prefix = string(m.text())
+		}
 
 		goto _again
 	f6:
diff --git a/machine.go.rl b/machine.go.rl
index 886de5c..66a3406 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -44,7 +44,10 @@ action tolower {
 }
 
 action set_pre {
-    output.prefix = string(m.text())
+    // Only once: an informal namespace identifier (urn-N) matches here, too
+    if output.prefix == "" {
+        output.prefix = string(m.text())
+    }
 }
 
 action throw_pre_urn_err {
-- 
2.43.0


From 586387e39515a9085d23add7a5e432908a41f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 8/8] fix: do not take quadratic time on question marks within
 r-components

---
 machine.go    | 14 ++++++++++----
 machine.go.rl |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/machine.go b/machine.go
index 61c2ecf..d13c2c6 100644
--- a/machine.go
+++ b/machine.go
@@ -149,6 +149,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	output := &URN{
 		tolower: []int{},
 	}
+	rBeg, rEnd := 0, 0 // Where the r-component is, if any
 	{
 		if (m.p) == (m.pe) {
 			goto _testEof
@@ -4306,7 +4307,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f42:
 
-		output.rComponent = string(m.text())
+		// The r-component possibly ends at each question mark: do not copy it over and over
+		rBeg, rEnd = m.pb, m.p
 
 		goto _again
 	f48:
@@ -4551,7 +4553,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		output.rStart = true
 
-		output.rComponent = string(m.text())
+		// The r-component possibly ends at each question mark: do not copy it over and over
+		rBeg, rEnd = m.pb, m.p
 
 		goto _again
 	f31:
@@ -4912,7 +4915,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 42:
 
-				output.rComponent = string(m.text())
+				// The r-component possibly ends at each question mark: do not copy it over and over
+				rBeg, rEnd = m.pb, m.p
 
 				output.kind = RFC8141
 
@@ -5005,7 +5009,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				output.rStart = true
 
-				output.rComponent = string(m.text())
+				// The r-component possibly ends at each question mark: do not copy it over and over
+				rBeg, rEnd = m.pb, m.p
 
 				output.kind = RFC8141
 
@@ -5039,6 +5044,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		return nil, m.err
 	}
+	output.rComponent = string(m.data[rBeg:rEnd])
 
 	return output, nil
 }
diff --git a/machine.go.rl b/machine.go.rl
index 66a3406..92829c7 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -220,7 +220,8 @@ action rfc8141_type {
 }
 
 action set_r_component {
-    output.rComponent = string(m.text())
+    // The r-component possibly ends at each question mark: do not copy it over and over
+    rBeg, rEnd = m.pb, m.p
 }
 
 action set_q_component {
@@ -369,6 +370,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     output := &URN{
         tolower: []int{},
     }
+    rBeg, rEnd := 0, 0 // Where the r-component is, if any
 
     %% write exec;
 
@@ -379,6 +381,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
         }
         return nil, m.err
     }
+    output.rComponent = string(m.data[rBeg:rEnd])
 
     return output, nil
 }
-- 
2.43.0

