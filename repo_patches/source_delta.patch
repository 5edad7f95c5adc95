From 70b7ee13427eac323437cfd903376833ffd19d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 01/26] fix: hold the file lock wherever section tables, key
 tables and values are read or written

---
 file.go    | 20 +++++++++++++-------
 key.go     | 29 +++++++++++++++++++++++++++--
 section.go | 17 ++++++++++++++++-
 struct.go  |  5 +++++
 4 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/file.go b/file.go
index f8b2240..f87f438 100644
--- a/file.go
+++ b/file.go
@@ -217,6 +217,11 @@ func (f *File) ChildSections(name string) []*Section {
 
 // SectionStrings returns list of section names.
 func (f *File) SectionStrings() []string {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	list := make([]string, len(f.sectionList))
 	copy(list, f.sectionList)
 	return list
@@ -342,9 +347,10 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 
 	// Use buffer to make sure target is safe until finish encoding.
 	buf := bytes.NewBuffer(nil)
-	lastSectionIdx := len(f.sectionList) - 1
-	for i, sname := range f.sectionList {
-		sec := f.SectionWithIndex(sname, f.sectionIndexes[i])
+	sections := f.Sections()
+	lastSectionIdx := len(sections) - 1
+	for i, sec := range sections {
+		sname, keyList := sec.name, sec.KeyStrings()
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
@@ -367,7 +373,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		} else {
 			// Write nothing if default section is empty
-			if len(sec.keyList) == 0 {
+			if len(keyList) == 0 {
 				continue
 			}
 		}
@@ -392,7 +398,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		// we need to take that into account in our calculation.
 		alignLength := 0
 		if PrettyFormat {
-			for _, kname := range sec.keyList {
+			for _, kname := range keyList {
 				keyLength := len(kname)
 				// First case will surround key by ` and second by """
 				if strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters) {
@@ -409,7 +415,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		alignSpaces := bytes.Repeat([]byte(" "), alignLength)
 
 	KeyList:
-		for _, kname := range sec.keyList {
+		for _, kname := range keyList {
 			key := sec.Key(kname)
 			if len(key.Comment) > 0 {
 				if len(indent) > 0 && sname != DefaultSection {
@@ -489,7 +495,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 			}
 
-			for _, val := range key.nestedValues {
+			for _, val := range key.NestedValues() {
 				if _, err := buf.WriteString(indent + "  " + val + LineBreak); err != nil {
 					return nil, err
 				}
diff --git a/key.go b/key.go
index a19d9f3..32f108b 100644
--- a/key.go
+++ b/key.go
@@ -77,6 +77,11 @@ func (k *Key) AddShadow(val string) error {
 	if !k.s.f.options.AllowShadows {
 		return errors.New("shadow key is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addShadow(val)
 }
 
@@ -85,6 +90,11 @@ func (k *Key) addNestedValue(val string) error {
 		return errors.New("cannot add nested value to auto-increment or boolean key")
 	}
 
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
+
 	k.nestedValues = append(k.nestedValues, val)
 	return nil
 }
@@ -107,12 +117,22 @@ func (k *Key) Name() string {
 
 // Value returns raw value of key for performance purpose.
 func (k *Key) Value() string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.value
 }
 
 // ValueWithShadows returns raw values of key and its shadows if any. Shadow
 // keys with empty values are ignored from the returned list.
 func (k *Key) ValueWithShadows() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	if len(k.shadows) == 0 {
 		if k.value == "" {
 			return []string{}
@@ -135,6 +155,11 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.nestedValues
 }
 
@@ -170,14 +195,14 @@ func (k *Key) transformValue(val string) string {
 		}
 
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
-		val = strings.Replace(val, vr, nk.value, -1)
+		val = strings.Replace(val, vr, nk.Value(), -1)
 	}
 	return val
 }
 
 // String returns string representation of value.
 func (k *Key) String() string {
-	return k.transformValue(k.value)
+	return k.transformValue(k.Value())
 }
 
 // Validate accepts a validate function which can
diff --git a/section.go b/section.go
index a3615d8..3f9fba4 100644
--- a/section.go
+++ b/section.go
@@ -176,9 +176,14 @@ func (s *Section) Key(name string) *Key {
 
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	keys := make([]*Key, len(s.keyList))
 	for i := range s.keyList {
-		keys[i] = s.Key(s.keyList[i])
+		keys[i] = s.keys[s.keyList[i]]
 	}
 	return keys
 }
@@ -205,6 +210,11 @@ func (s *Section) ParentKeys() []*Key {
 
 // KeyStrings returns list of key names of section.
 func (s *Section) KeyStrings() []string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	list := make([]string, len(s.keyList))
 	copy(list, s.keyList)
 	return list
@@ -245,6 +255,11 @@ func (s *Section) DeleteKey(name string) {
 // For example, "[parent.child1]" and "[parent.child12]" are child sections
 // of section "[parent]".
 func (s *Section) ChildSections() []*Section {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
 	for _, name := range s.f.sectionList {
diff --git a/struct.go b/struct.go
index a486b2f..1662f42 100644
--- a/struct.go
+++ b/struct.go
@@ -490,6 +490,11 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 				_ = keyWithShadows.AddShadow(val)
 			}
 		}
+
+		if key.s.f.BlockMode {
+			key.s.f.lock.Lock()
+			defer key.s.f.lock.Unlock()
+		}
 		*key = *keyWithShadows
 		return nil
 	}
-- 
2.43.0


From b18cc4bd5badd94826a032218e1022bd9b8960bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 02/26] fix: keep a section's value hash and comments in step
 when defaults and shadows are stored

---
 key.go    | 22 ++++++++++++----------
 struct.go |  4 ++++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/key.go b/key.go
index 32f108b..84159e1 100644
--- a/key.go
+++ b/key.go
@@ -277,7 +277,7 @@ func (k *Key) Time() (time.Time, error) {
 func (k *Key) MustString(defaultVal string) string {
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.SetValue(defaultVal)
 		return defaultVal
 	}
 	return val
@@ -288,7 +288,7 @@ func (k *Key) MustString(defaultVal string) string {
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.SetValue(strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -299,7 +299,7 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	return val
@@ -310,7 +310,7 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -321,7 +321,7 @@ func (k *Key) MustInt(defaultVal ...int) int {
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -332,7 +332,7 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -343,7 +343,7 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -354,7 +354,7 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.SetValue(defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -365,7 +365,7 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.SetValue(defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
@@ -858,5 +858,7 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
+	if k.s.keys[k.name] == k {
+		k.s.keysHash[k.name] = v
+	}
 }
diff --git a/struct.go b/struct.go
index 1662f42..6ad9349 100644
--- a/struct.go
+++ b/struct.go
@@ -495,7 +495,11 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 			key.s.f.lock.Lock()
 			defer key.s.f.lock.Unlock()
 		}
+		keyWithShadows.Comment = key.Comment
 		*key = *keyWithShadows
+		if key.s.keys[key.name] == key {
+			key.s.keysHash[key.name] = key.value
+		}
 		return nil
 	}
 
-- 
2.43.0


From d34c3a1a7235c9b778741993882719b8aff568dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 03/26] fix: hand out copies of a file's section list and a
 key's nested values

---
 file.go | 2 +-
 key.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index f87f438..864f222 100644
--- a/file.go
+++ b/file.go
@@ -167,7 +167,7 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 		return nil, fmt.Errorf("section %q does not exist", name)
 	}
 
-	return secs, nil
+	return append([]*Section(nil), secs...), nil
 }
 
 // Section assumes named section exists and returns a zero-value when not.
diff --git a/key.go b/key.go
index 84159e1..8505eb7 100644
--- a/key.go
+++ b/key.go
@@ -160,7 +160,7 @@ func (k *Key) NestedValues() []string {
 		defer k.s.f.lock.RUnlock()
 	}
 
-	return k.nestedValues
+	return append([]string(nil), k.nestedValues...)
 }
 
 // transformValue takes a raw value and transforms to its final string.
-- 
2.43.0


From e7ab1da8dd38466302fb70acc44742ca239f4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 04/26] fix: delete keys by normalised name when key names are
 case-insensitive

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index 3f9fba4..784dde9 100644
--- a/section.go
+++ b/section.go
@@ -241,6 +241,10 @@ func (s *Section) DeleteKey(name string) {
 		defer s.f.lock.Unlock()
 	}
 
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
 	for i, k := range s.keyList {
 		if k == name {
 			s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
-- 
2.43.0


From 03094a3d00f28949bad3233556db34b63adcbdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 05/26] fix: normalise an explicit default section name like
 any other

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 864f222..c4cf5c7 100644
--- a/file.go
+++ b/file.go
@@ -85,7 +85,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From 3cefa94922f4291773d69e397a8cb597fc00f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:54 +0000
Subject: [PATCH 06/26] fix: split values at multi-byte and empty delimiters
 without panic or endless loop

---
 key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/key.go b/key.go
index 8505eb7..20f6cdd 100644
--- a/key.go
+++ b/key.go
@@ -21,6 +21,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // Key represents a key under a section.
@@ -518,6 +519,8 @@ func (k *Key) Strings(delim string) []string {
 	str := k.String()
 	if len(str) == 0 {
 		return []string{}
+	} else if len(delim) == 0 {
+		return []string{strings.TrimSpace(str)}
 	}
 
 	runes := []rune(str)
@@ -536,7 +539,7 @@ func (k *Key) Strings(delim string) []string {
 			if runes[idx] == '\\' {
 				escape = true
 			} else if strings.HasPrefix(string(runes[idx:]), delim) {
-				idx += len(delim) - 1
+				idx += utf8.RuneCountInString(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
@@ -544,7 +547,7 @@ func (k *Key) Strings(delim string) []string {
 			}
 		}
 		idx++
-		if idx == len(runes) {
+		if idx >= len(runes) {
 			break
 		}
 	}
-- 
2.43.0


From 0d27b41b0d44f1a6b397e64213a7c4df734e6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:56 +0000
Subject: [PATCH 07/26] fix: write comments that contain empty lines

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index c4cf5c7..1bd989d 100644
--- a/file.go
+++ b/file.go
@@ -355,7 +355,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
+				if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 					lines[i] = "; " + lines[i]
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
@@ -425,7 +425,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// Support multiline comments
 				lines := strings.Split(key.Comment, LineBreak)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From 73e1510b435242b23f80fe2f3994b30d64f53924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 08/26] fix: report read errors met while peeking for
 Python-style values

---
 parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..d7de2f8 100644
--- a/parser.go
+++ b/parser.go
@@ -303,7 +303,10 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 }
 
 func (p *parser) readPythonMultilines(line string, bufferSize int) (string, error) {
-	parserBufferPeekResult, _ := p.buf.Peek(bufferSize)
+	parserBufferPeekResult, err := p.buf.Peek(bufferSize)
+	if err != nil && err != io.EOF && err != bufio.ErrBufferFull {
+		return "", err
+	}
 	peekBuffer := bytes.NewBuffer(parserBufferPeekResult)
 
 	for {
@@ -328,7 +331,7 @@ func (p *parser) readPythonMultilines(line string, bufferSize int) (string, erro
 		}
 
 		// Advance the parser reader (buffer) in-sync with the peek buffer.
-		_, err := p.buf.Discard(len(peekData))
+		_, err = p.buf.Discard(len(peekData))
 		if err != nil {
 			p.debug("readPythonMultilines: failed to skip to the end, returning error")
 			return "", err
@@ -378,7 +381,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 
 	if f.options.AllowPythonMultilineValues {
 		for {
-			peekBytes, _ := p.buf.Peek(currentPeekSize)
+			peekBytes, err := p.buf.Peek(currentPeekSize)
+			if err != nil && err != io.EOF && err != bufio.ErrBufferFull {
+				return err
+			}
 			peekBytesLength := len(peekBytes)
 
 			if parserBufferSize >= peekBytesLength {
-- 
2.43.0


From 0bc2ecb370fb40ee897bbb813b154c3289d807d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:59 +0000
Subject: [PATCH 09/26] fix: report invalid list elements in strict mapping

---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index 6ad9349..7b94cf1 100644
--- a/struct.go
+++ b/struct.go
@@ -99,19 +99,19 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.String:
 		vals = strs
 	case reflect.Int:
-		vals, err = key.parseInts(strs, true, false)
+		vals, err = key.parseInts(strs, true, isStrict)
 	case reflect.Int64:
-		vals, err = key.parseInt64s(strs, true, false)
+		vals, err = key.parseInt64s(strs, true, isStrict)
 	case reflect.Uint:
-		vals, err = key.parseUints(strs, true, false)
+		vals, err = key.parseUints(strs, true, isStrict)
 	case reflect.Uint64:
-		vals, err = key.parseUint64s(strs, true, false)
+		vals, err = key.parseUint64s(strs, true, isStrict)
 	case reflect.Float64:
-		vals, err = key.parseFloat64s(strs, true, false)
+		vals, err = key.parseFloat64s(strs, true, isStrict)
 	case reflect.Bool:
-		vals, err = key.parseBools(strs, true, false)
+		vals, err = key.parseBools(strs, true, isStrict)
 	case reflectTime:
-		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
+		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 	}
-- 
2.43.0


From 5d171e9e19b21ef027b46bfc774638a6dac8d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 10/26] fix: handle negative section indexes and the unnamed
 default section

---
 file.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 1bd989d..ed49a57 100644
--- a/file.go
+++ b/file.go
@@ -186,7 +186,10 @@ func (f *File) Section(name string) *Section {
 // SectionWithIndex assumes named section exists and returns a new section when not.
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
-	if err != nil || len(secs) <= index {
+	if err != nil || index < 0 || len(secs) <= index {
+		if name == "" {
+			name = DefaultSection
+		}
 		// NOTE: It's OK here because the only possible error is empty section name,
 		// but if it's empty, this piece of code won't be executed.
 		newSec, _ := f.NewSection(name)
@@ -248,6 +251,10 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 		return fmt.Errorf("delete section with non-zero index is only allowed when non-unique sections is enabled")
 	}
 
+	if index < 0 {
+		return fmt.Errorf("delete section with negative index %d", index)
+	}
+
 	if len(name) == 0 {
 		name = DefaultSection
 	}
-- 
2.43.0


From 226a937eff08154899e3d69b55409279b0a3d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:20 +0000
Subject: [PATCH 11/26] fix: never return a nil key from Section.Key

---
 section.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/section.go b/section.go
index 784dde9..0f4c388 100644
--- a/section.go
+++ b/section.go
@@ -168,7 +168,11 @@ func (s *Section) Key(name string) *Key {
 	if err != nil {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
-		key, _ = s.NewKey(name, "")
+		key, err = s.NewKey(name, "")
+		if err != nil {
+			// The name cannot be stored, return a zero-value key of no section entry
+			return newKey(s, name, "")
+		}
 		return key
 	}
 	return key
-- 
2.43.0


From 7191baf5ba5ae70125608b3caca55cb85d4eeae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:47 +0000
Subject: [PATCH 12/26] fix: do not create a section when reading, nor keep
 sources of a rejected append

---
 file.go | 5 +++--
 key.go  | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/file.go b/file.go
index ed49a57..31f7011 100644
--- a/file.go
+++ b/file.go
@@ -334,14 +334,15 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	if err != nil {
 		return err
 	}
-	f.dataSources = append(f.dataSources, ds)
+	sources := []dataSource{ds}
 	for _, s := range others {
 		ds, err = parseDataSource(s)
 		if err != nil {
 			return err
 		}
-		f.dataSources = append(f.dataSources, ds)
+		sources = append(sources, ds)
 	}
+	f.dataSources = append(f.dataSources, sources...)
 	return f.Reload()
 }
 
diff --git a/key.go b/key.go
index 20f6cdd..0348bb8 100644
--- a/key.go
+++ b/key.go
@@ -187,7 +187,11 @@ func (k *Key) transformValue(val string) string {
 		// If not found or found the key itself, then search again in default section.
 		nk, err := k.s.GetKey(noption)
 		if err != nil || k == nk {
-			nk, _ = k.s.f.Section("").GetKey(noption)
+			sec, err := k.s.f.GetSection("")
+			if err != nil {
+				break
+			}
+			nk, _ = sec.GetKey(noption)
 			if nk == nil {
 				// Stop when no results found in the default section,
 				// and returns the value as-is.
-- 
2.43.0


From 7345f7f498e86bfa373c4cb4c48f1341266d2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 13/26] fix: look a key up in parent sections without recursion

---
 section.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/section.go b/section.go
index 0f4c388..2af9b8e 100644
--- a/section.go
+++ b/section.go
@@ -104,36 +104,41 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 	return key, nil
 }
 
-// GetKey returns key in section by given name.
-func (s *Section) GetKey(name string) (*Key, error) {
+// ownKey returns the key stored in the section itself, nil if there is none.
+func (s *Section) ownKey(name string) *Key {
 	if s.f.BlockMode {
 		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
 	}
+	return s.keys[name]
+}
+
+// GetKey returns key in section by given name.
+func (s *Section) GetKey(name string) (*Key, error) {
 	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
 		name = strings.ToLower(name)
 	}
-	key := s.keys[name]
-	if s.f.BlockMode {
-		s.f.lock.RUnlock()
+	if key := s.ownKey(name); key != nil {
+		return key, nil
 	}
 
-	if key == nil {
-		// Check if it is a child-section.
-		sname := s.name
-		for {
-			if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
-				sname = sname[:i]
-				sec, err := s.f.GetSection(sname)
-				if err != nil {
-					continue
-				}
-				return sec.GetKey(name)
-			}
+	// Check if it is a child-section.
+	sname := s.name
+	for {
+		i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter)
+		if i == -1 {
 			break
 		}
-		return nil, fmt.Errorf("error when getting key of section %q: key %q not exists", s.name, name)
+		sname = sname[:i]
+		sec, err := s.f.GetSection(sname)
+		if err != nil {
+			continue
+		}
+		if key := sec.ownKey(name); key != nil {
+			return key, nil
+		}
 	}
-	return key, nil
+	return nil, fmt.Errorf("error when getting key of section %q: key %q not exists", s.name, name)
 }
 
 // HasKey returns true if section contains a key with given name.
-- 
2.43.0


From 4228d9d7f896e7b017b7815047a2f5670695d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 14/26] fix: do not create a missing section when listing its
 child sections

---
 file.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 31f7011..bf09bab 100644
--- a/file.go
+++ b/file.go
@@ -215,7 +215,18 @@ func (f *File) Sections() []*Section {
 
 // ChildSections returns a list of child sections of given section name.
 func (f *File) ChildSections(name string) []*Section {
-	return f.Section(name).ChildSections()
+	sec, err := f.GetSection(name)
+	if err != nil {
+		// The section itself does not have to exist, and listing must not create it.
+		if len(name) == 0 {
+			name = DefaultSection
+		}
+		if f.options.Insensitive || f.options.InsensitiveSections {
+			name = strings.ToLower(name)
+		}
+		sec = newSection(f, name)
+	}
+	return sec.ChildSections()
 }
 
 // SectionStrings returns list of section names.
-- 
2.43.0


From 611d4530d375a511c12ef739f391ce8e6cc10583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 15/26] fix: write the keys that were listed, never create one
 while writing

---
 file.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/file.go b/file.go
index bf09bab..1ab5c01 100644
--- a/file.go
+++ b/file.go
@@ -369,7 +369,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	sections := f.Sections()
 	lastSectionIdx := len(sections) - 1
 	for i, sec := range sections {
-		sname, keyList := sec.name, sec.KeyStrings()
+		sname, keys := sec.name, sec.Keys()
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
@@ -392,7 +392,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		} else {
 			// Write nothing if default section is empty
-			if len(keyList) == 0 {
+			if len(keys) == 0 {
 				continue
 			}
 		}
@@ -417,7 +417,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		// we need to take that into account in our calculation.
 		alignLength := 0
 		if PrettyFormat {
-			for _, kname := range keyList {
+			for _, key := range keys {
+				kname := key.name
 				keyLength := len(kname)
 				// First case will surround key by ` and second by """
 				if strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters) {
@@ -434,8 +435,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		alignSpaces := bytes.Repeat([]byte(" "), alignLength)
 
 	KeyList:
-		for _, kname := range keyList {
-			key := sec.Key(kname)
+		for _, key := range keys {
+			kname := key.name
 			if len(key.Comment) > 0 {
 				if len(indent) > 0 && sname != DefaultSection {
 					buf.WriteString(indent)
-- 
2.43.0


From 0135c2574d274d6f981d04b45cde8f180fdbced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 16/26] fix: mapping and reflecting never panic on the kinds
 and types they meet

---
 struct.go | 151 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 77 insertions(+), 74 deletions(-)

diff --git a/struct.go b/struct.go
index 7b94cf1..56a4746 100644
--- a/struct.go
+++ b/struct.go
@@ -77,6 +77,11 @@ func parseDelim(actual string) string {
 
 var reflectTime = reflect.TypeOf(time.Now()).Kind()
 
+var (
+	timeType     = reflect.TypeOf(time.Time{})
+	durationType = reflect.TypeOf(time.Duration(0))
+)
+
 // setSliceWithProperType sets proper values to slice based on its type.
 func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
 	var strs []string
@@ -111,6 +116,9 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Bool:
 		vals, err = key.parseBools(strs, true, isStrict)
 	case reflectTime:
+		if field.Type().Elem() != timeType {
+			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+		}
 		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
@@ -123,19 +131,19 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).SetString(vals.([]string)[i])
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).SetInt(int64(vals.([]int)[i]))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).SetInt(vals.([]int64)[i])
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).SetUint(uint64(vals.([]uint)[i]))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).SetUint(vals.([]uint64)[i])
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).SetFloat(vals.([]float64)[i])
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).SetBool(vals.([]bool)[i])
 		case reflectTime:
 			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
 		}
@@ -156,110 +164,78 @@ func wrapStrictError(err error, isStrict bool) error {
 // because we want to use default value that is already assigned to struct.
 func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
 	vt := t
+	target := field
 	isPtr := t.Kind() == reflect.Ptr
 	if isPtr {
 		vt = t.Elem()
+		target = reflect.New(vt).Elem()
 	}
 	switch vt.Kind() {
 	case reflect.String:
 		stringVal := key.String()
-		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
-		} else if len(stringVal) > 0 {
-			field.SetString(key.String())
+		if isPtr || len(stringVal) > 0 {
+			target.SetString(stringVal)
 		}
 	case reflect.Bool:
 		boolVal, err := key.Bool()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
-		} else {
-			field.SetBool(boolVal)
-		}
+		target.SetBool(boolVal)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		// ParseDuration will not return err for `0`, so check the type name
-		if vt.Name() == "Duration" {
+		// ParseDuration will not return err for `0`, so check the type
+		if vt == durationType {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
-					field.SetInt(intVal)
-					return nil
+				intVal, intErr := key.Int64()
+				if intErr != nil {
+					return wrapStrictError(err, isStrict)
 				}
-				return wrapStrictError(err, isStrict)
+				target.SetInt(intVal)
+			} else if isPtr || int64(durationVal) > 0 {
+				target.SetInt(int64(durationVal))
 			}
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else if int64(durationVal) > 0 {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
+			break
 		}
 
 		intVal, err := key.Int64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			pv := reflect.New(t.Elem())
-			pv.Elem().SetInt(intVal)
-			field.Set(pv)
-		} else {
-			field.SetInt(intVal)
-		}
+		target.SetInt(intVal)
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		durationVal, err := key.Duration()
-		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
-		}
-
 		uintVal, err := key.Uint64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			pv := reflect.New(t.Elem())
-			pv.Elem().SetUint(uintVal)
-			field.Set(pv)
-		} else {
-			field.SetUint(uintVal)
-		}
+		target.SetUint(uintVal)
 
 	case reflect.Float32, reflect.Float64:
 		floatVal, err := key.Float64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			pv := reflect.New(t.Elem())
-			pv.Elem().SetFloat(floatVal)
-			field.Set(pv)
-		} else {
-			field.SetFloat(floatVal)
-		}
+		target.SetFloat(floatVal)
 	case reflectTime:
+		if vt != timeType {
+			return wrapStrictError(fmt.Errorf("unsupported type %q", t), isStrict)
+		}
 		timeVal, err := key.Time()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-		if isPtr {
-			field.Set(reflect.ValueOf(&timeVal))
-		} else {
-			field.Set(reflect.ValueOf(timeVal))
-		}
+		target.Set(reflect.ValueOf(timeVal))
 	case reflect.Slice:
-		return setSliceWithProperType(key, field, delim, allowShadow, isStrict)
+		if err := setSliceWithProperType(key, target, delim, allowShadow, isStrict); err != nil {
+			return err
+		}
 	default:
 		return fmt.Errorf("unsupported type %q", t)
 	}
+	if isPtr {
+		field.Set(target.Addr())
+	}
 	return nil
 }
 
@@ -281,6 +257,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -366,29 +345,33 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	}
 
 	typ := val.Type().Elem()
+	isPtr := typ.Kind() == reflect.Ptr
+	if isPtr {
+		typ = typ.Elem()
+	}
 	for i, sec := range secs {
 		elem := reflect.New(typ)
 		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-		val = reflect.Append(val, elem.Elem())
+		if !isPtr {
+			elem = elem.Elem()
+		}
+		val = reflect.Append(val, elem)
 	}
 	return val, nil
 }
 
 // mapTo maps a section to object v.
 func (s *Section) mapTo(v interface{}, isStrict bool) error {
-	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
-	if typ.Kind() == reflect.Ptr {
-		typ = typ.Elem()
-		val = val.Elem()
-	} else {
+	if val.Kind() != reflect.Ptr || val.IsNil() {
 		return errors.New("not a pointer to a struct")
 	}
+	val = val.Elem()
 
-	if typ.Kind() == reflect.Slice {
+	if val.Kind() == reflect.Slice {
 		newField, err := s.mapToSlice(s.name, val, isStrict)
 		if err != nil {
 			return err
@@ -462,6 +445,9 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
+	if sliceOf == reflectTime && field.Type().Elem() != timeType {
+		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+	}
 
 	if allowShadow {
 		var keyWithShadows *Key
@@ -541,6 +527,9 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 	case reflect.Float32, reflect.Float64:
 		key.SetValue(fmt.Sprint(field.Float()))
 	case reflectTime:
+		if t != timeType {
+			return fmt.Errorf("unsupported type %q", t)
+		}
 		key.SetValue(fmt.Sprint(field.Interface().(time.Time).Format(time.RFC3339)))
 	case reflect.Slice:
 		return reflectSliceWithProperType(key, field, delim, allowShadow)
@@ -584,8 +573,14 @@ type StructReflector interface {
 
 func (s *Section) reflectFrom(val reflect.Value) error {
 	if val.Kind() == reflect.Ptr {
+		if val.IsNil() {
+			return nil
+		}
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -623,7 +618,12 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+			(tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType) {
+			// There is nothing to reflect behind a nil pointer
+			if tpField.Type.Kind() == reflect.Ptr && field.IsNil() {
+				continue
+			}
+
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
@@ -695,6 +695,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 func (s *Section) ReflectFrom(v interface{}) error {
 	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
+	if typ == nil {
+		return errors.New("not a pointer to a struct")
+	}
 
 	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
 		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
-- 
2.43.0


From 7bbe88786cb24a9856cb39021dfbed252473c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 17/26] fix: do not truncate a number that overflows the mapped
 field

---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index 56a4746..fe0d3f3 100644
--- a/struct.go
+++ b/struct.go
@@ -199,6 +199,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 
 		intVal, err := key.Int64()
+		if err == nil && target.OverflowInt(intVal) {
+			err = fmt.Errorf("value %d overflows type %q", intVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -206,6 +209,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		uintVal, err := key.Uint64()
+		if err == nil && target.OverflowUint(uintVal) {
+			err = fmt.Errorf("value %d overflows type %q", uintVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -213,6 +219,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 
 	case reflect.Float32, reflect.Float64:
 		floatVal, err := key.Float64()
+		if err == nil && target.OverflowFloat(floatVal) {
+			err = fmt.Errorf("value %v overflows type %q", floatVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-- 
2.43.0


From bba75139679a1c9dbc961c022ad9c135d9baf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 18/26] fix: reflect pointers to times and the fields after an
 empty list of sections

---
 struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index fe0d3f3..28396d9 100644
--- a/struct.go
+++ b/struct.go
@@ -626,7 +626,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
+		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType) ||
 			(tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType) {
 			// There is nothing to reflect behind a nil pointer
 			if tpField.Type.Kind() == reflect.Ptr && field.IsNil() {
@@ -654,7 +654,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
 			if field.Len() == 0 {
-				return nil
+				continue
 			}
 			sliceOf := field.Type().Elem().Kind()
 
-- 
2.43.0


From a8134ed86af5cb320725f5644e155805d1673475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 19/26] fix: typed reads without a default return zero for a
 value out of range

---
 key.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/key.go b/key.go
index 0348bb8..93aaec2 100644
--- a/key.go
+++ b/key.go
@@ -307,6 +307,9 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -318,6 +321,9 @@ func (k *Key) MustInt(defaultVal ...int) int {
 		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -329,6 +335,9 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -340,6 +349,9 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
@@ -351,6 +363,9 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0
+	}
 	return val
 }
 
-- 
2.43.0


From ded754ef2130723b796de0c00f9c42fd4d77811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 20/26] fix: list reads return zero for elements out of range

---
 key.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/key.go b/key.go
index 93aaec2..1599a2c 100644
--- a/key.go
+++ b/key.go
@@ -762,7 +762,10 @@ func (k *Key) parseFloat64s(strs []string, addInvalid, returnOnInvalid bool) ([]
 	vals := make([]float64, 0, len(strs))
 	parser := func(str string) (interface{}, error) {
 		val, err := strconv.ParseFloat(str, 64)
-		return val, err
+		if err != nil {
+			return float64(0), err
+		}
+		return val, nil
 	}
 	rawVals, err := k.doParse(strs, addInvalid, returnOnInvalid, parser)
 	if err == nil {
@@ -778,7 +781,10 @@ func (k *Key) parseInts(strs []string, addInvalid, returnOnInvalid bool) ([]int,
 	vals := make([]int, 0, len(strs))
 	parser := func(str string) (interface{}, error) {
 		val, err := strconv.ParseInt(str, 0, 64)
-		return val, err
+		if err != nil {
+			return int64(0), err
+		}
+		return val, nil
 	}
 	rawVals, err := k.doParse(strs, addInvalid, returnOnInvalid, parser)
 	if err == nil {
@@ -794,7 +800,10 @@ func (k *Key) parseInt64s(strs []string, addInvalid, returnOnInvalid bool) ([]in
 	vals := make([]int64, 0, len(strs))
 	parser := func(str string) (interface{}, error) {
 		val, err := strconv.ParseInt(str, 0, 64)
-		return val, err
+		if err != nil {
+			return int64(0), err
+		}
+		return val, nil
 	}
 
 	rawVals, err := k.doParse(strs, addInvalid, returnOnInvalid, parser)
@@ -811,7 +820,10 @@ func (k *Key) parseUints(strs []string, addInvalid, returnOnInvalid bool) ([]uin
 	vals := make([]uint, 0, len(strs))
 	parser := func(str string) (interface{}, error) {
 		val, err := strconv.ParseUint(str, 0, 64)
-		return val, err
+		if err != nil {
+			return uint64(0), err
+		}
+		return val, nil
 	}
 
 	rawVals, err := k.doParse(strs, addInvalid, returnOnInvalid, parser)
@@ -828,7 +840,10 @@ func (k *Key) parseUint64s(strs []string, addInvalid, returnOnInvalid bool) ([]u
 	vals := make([]uint64, 0, len(strs))
 	parser := func(str string) (interface{}, error) {
 		val, err := strconv.ParseUint(str, 0, 64)
-		return val, err
+		if err != nil {
+			return uint64(0), err
+		}
+		return val, nil
 	}
 	rawVals, err := k.doParse(strs, addInvalid, returnOnInvalid, parser)
 	if err == nil {
-- 
2.43.0


From 016744c19d27b97d5264282ac3321afc933111cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 21/26] fix: InTimeFormat compares instants instead of time
 representations

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 1599a2c..25170f8 100644
--- a/key.go
+++ b/key.go
@@ -474,7 +474,7 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
 	val := k.MustTimeFormat(format)
 	for _, cand := range candidates {
-		if val == cand {
+		if val.Equal(cand) {
 			return val
 		}
 	}
-- 
2.43.0


From e96d6535d0e3f7b6548d47a1494ed1c3b4a43eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 22/26] fix: RangeTimeFormat does not ignore fractions of a
 second

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 25170f8..2cf0f8e 100644
--- a/key.go
+++ b/key.go
@@ -521,7 +521,7 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
 	val := k.MustTimeFormat(format)
-	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	if val.Before(min) || val.After(max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From ab8739d4cfbf376b3fd961f0b3d09f7287a63d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 23/26] fix: RangeFloat64 returns the default for a value that
 is not a number

---
 key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 2cf0f8e..3e84a8f 100644
--- a/key.go
+++ b/key.go
@@ -491,7 +491,8 @@ func (k *Key) InTime(defaultVal time.Time, candidates []time.Time) time.Time {
 // and returns default value if it's not.
 func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 	val := k.MustFloat64()
-	if val < min || val > max {
+	// NOTE: A value that is not a number is in no range.
+	if !(val >= min && val <= max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From 68dc4806602c0d34f2ae1616980fdb53b6b0b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 24/26] fix: write every line of a comment as a comment
 whatever the line break

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 1ab5c01..1028a05 100644
--- a/file.go
+++ b/file.go
@@ -372,7 +372,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		sname, keys := sec.name, sec.Keys()
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
-			lines := strings.Split(sec.Comment, LineBreak)
+			lines := strings.Split(strings.ReplaceAll(sec.Comment, LineBreak, "\n"), "\n")
 			for i := range lines {
 				if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 					lines[i] = "; " + lines[i]
@@ -443,7 +443,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// Support multiline comments
-				lines := strings.Split(key.Comment, LineBreak)
+				lines := strings.Split(strings.ReplaceAll(key.Comment, LineBreak, "\n"), "\n")
 				for i := range lines {
 					if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
-- 
2.43.0


From bc0f7953d095a1c4d491a0f18e29ae0047ad39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 25/26] fix: start a section on its own line after a raw
 section's body

---
 file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 1028a05..300e4c5 100644
--- a/file.go
+++ b/file.go
@@ -403,7 +403,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return nil, err
 			}
 
-			if PrettySection && !isLastSection {
+			// The next section must start on its own line.
+			endsOpen := len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\n")
+			if (PrettySection || endsOpen) && !isLastSection {
 				// Put a line between sections
 				if _, err := buf.WriteString(LineBreak); err != nil {
 					return nil, err
-- 
2.43.0


From 977a0d70191d8b36c5609c63331c8d593366a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 26/26] fix: list each child section once when names are not
 unique

---
 section.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 2af9b8e..f0a9123 100644
--- a/section.go
+++ b/section.go
@@ -275,9 +275,9 @@ func (s *Section) ChildSections() []*Section {
 
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
+	for i, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])
 		}
 	}
 	return children
-- 
2.43.0

