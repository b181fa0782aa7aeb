From 1b3f44ffd2bcf11d4cf6e99865ebec9484510075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 01/16] fix: empty StringSplitPattern covers the whole string
 in bytes

---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From c44fb82ea5c8d76c6d529add9fdc582b73a3d2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 02/16] fix: Append locates the last rune by byte position

---
 normalizedstring/normalizedstring.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..cbc52f1 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -462,8 +462,8 @@ func (ns *NormalizedString) Append(s string) {
 	transformations := make([]RuneChange, 0, len(s)+1)
 
 	runes := []rune(ns.normalized)
-	lastRuneIndex := len(runes) - 1
-	lastRune := runes[lastRuneIndex]
+	lastRune := runes[len(runes)-1]
+	lastRuneStart := ns.Len() - len(string(lastRune))
 
 	transformations = append(transformations, RuneChange{Rune: lastRune, Change: 0})
 
@@ -471,8 +471,7 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	ns.TransformRange(NewNormalizedRange(lastRuneStart, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From 89dfba130281586f6f45efb694e0639676d7cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 03/16] fix: TransformRange counts initialOffset in runes, not
 bytes

---
 normalizedstring/normalizedstring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index cbc52f1..1a1526f 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,9 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	replacedNormalizedRunes := []rune(replacedNormalizedString)
+	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
+	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
-- 
2.43.0


From 006793e05ca85828ea2909eacc699fc2ddbf0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 04/16] fix: report out of range requests as unsuccessful
 instead of panicking

---
 normalizedstring/normalizedstring.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 1a1526f..3e6b9be 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -319,7 +319,7 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 	nr, ok := ns.CoerceRangeToNormalized(rng)
-	if !ok {
+	if !ok || !rangeFits(nr, len(ns.normalized)) {
 		return "", false
 	}
 	return ns.normalized[nr.Start():nr.End()], true
@@ -329,7 +329,7 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
 	or, ok := ns.CoerceRangeToOriginal(rng)
-	if !ok {
+	if !ok || !rangeFits(or, len(ns.original)) {
 		return "", false
 	}
 	return ns.original[or.Start():or.End()], true
@@ -421,6 +421,11 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 		return NewOriginalRange(0, ns.OriginalLen()), true
 	}
 
+	// If the target is out of range, return invalid status
+	if !rangeFits(r, len(ns.alignments)) {
+		return NewOriginalRange(0, 0), false
+	}
+
 	alignments := ns.alignments[r.Start():r.End()]
 
 	// Expand alignments, returning the range covered by this slice
@@ -643,7 +648,7 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 	}
 
 	normalizedRange, nrOk := ns.CoerceRangeToNormalized(rng)
-	if !nrOk {
+	if !nrOk || !rangeFits(normalizedRange, len(ns.alignments)) {
 		return nil, false
 	}
 	originalRange, orOk := ns.CoerceRangeToOriginal(rng)
@@ -832,6 +837,12 @@ func (ns *NormalizedString) rangeIsValid(r Range) bool {
 		strutils.IsRuneBoundary(s, r.End())
 }
 
+// rangeFits reports whether the given range goes forward, and lies entirely
+// within a sequence of the given length.
+func rangeFits(r Range, length int) bool {
+	return 0 <= r.Start() && r.Start() <= r.End() && r.End() <= length
+}
+
 // countLeadingSpaces returns the number of leading spaces in the given slice
 // of runes, if any.
 func countLeadingSpaces(runes []rune) int {
-- 
2.43.0


From 4eebd42e29d96105cd2b598f80a540d47df2b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:56 +0000
Subject: [PATCH 05/16] fix: OriginalAlignments does not panic on an empty
 normalized string

---
 normalizedstring/normalizedstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 3e6b9be..694f0c6 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -243,6 +243,11 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
 
+	// Nothing is left of the original string
+	if len(ns.alignments) == 0 {
+		return append(originalAlignments, make([]AlignmentRange, len(ns.original))...)
+	}
+
 	// Eventual gap before first group
 
 	if start := ns.alignments[0].start; start > 0 {
-- 
2.43.0


From 0f3f9376d7fce6a27a78f3d6a749ff9979464e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 06/16] fix: WordPiece shrinks the candidate sub-word by
 exactly one rune

---
 models/wordpiecemodel/wordpiecemodel.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..5978c80 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -91,11 +92,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
-				end--
-			}
+			_, lastRuneSize := utf8.DecodeLastRuneInString(sequence[start:end])
+			end -= lastRuneSize
 		}
 
 		if !hasCurToken {
-- 
2.43.0


From 7c0036f057261ae1bb20358b61202ab14c42046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 07/16] fix: BPE adds the continuing sub-word prefix behind the
 first rune only

---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From d11850bfb6770b00f620de4de00fdba54d71cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 08/16] fix: MergeMapFromFile rejects a right token shorter
 than the prefix

---
 models/bpemodel/mergemap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..41f0838 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -72,6 +72,9 @@ func MergeMapFromFile(
 			return nil, fmt.Errorf("line %d: right merge token is out of vocabulary", lineCount)
 		}
 
+		if prefixLength > len(terms[1]) {
+			return nil, fmt.Errorf("line %d: right merge token is shorter than the prefix", lineCount)
+		}
 		mergedTerm := fmt.Sprintf("%s%s", terms[0], terms[1][prefixLength:])
 		mergedID, mergedOK := vocab.GetID(mergedTerm)
 		if !mergedOK {
-- 
2.43.0


From ac67f910f100006e41eb26d617c7a8b587576e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 09/16] fix: BytesToRuneOffsetConverter accepts a range
 starting at the end

---
 strutils/strutils.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..530a330 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -65,14 +65,15 @@ func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
-	start := b.mapping[offsets.Start]
-
-	var end int
-	if offsets.End == len(b.mapping) {
-		end = b.mapping[offsets.End-1] + 1
-	} else {
-		end = b.mapping[offsets.End]
+	return RuneOffsets{
+		Start: b.convertPosition(offsets.Start),
+		End:   b.convertPosition(offsets.End),
 	}
+}
 
-	return RuneOffsets{Start: start, End: end}
+func (b *BytesToRuneOffsetConverter) convertPosition(position int) int {
+	if position == len(b.mapping) {
+		return b.mapping[position-1] + 1
+	}
+	return b.mapping[position]
 }
-- 
2.43.0


From 287efe5665c027f51948e15a37df5d0e3b2ac209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 10/16] fix: a vocabulary read from a JSON null accepts new
 terms

---
 vocabulary/vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..d8a53ca 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -36,6 +36,10 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
+	if termToID == nil { // the JSON value is `null`
+		termToID = make(map[string]int)
+	}
+
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
 		idToTerm[id] = term
-- 
2.43.0


From 66d8ad7c608d4a91ea20391dcafa2ffdf6e15e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 11/16] fix: AddTerm never reassigns an ID which is already in
 use

---
 vocabulary/vocabulary.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index d8a53ca..70474be 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -50,13 +50,17 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 
 // AddTerm adds a new term to the vocabulary.
 // If the term does not yet exist in the vocabulary, a new ID is associated to
-// it, corresponding to the current vocabulary size.
+// it, corresponding to the current vocabulary size, or to the first free ID
+// after it if that one is taken.
 // Otherwise, if the string already exists, no insertion is performed.
 func (v *Vocabulary) AddTerm(term string) {
 	if _, ok := v.termToID[term]; ok {
 		return
 	}
 	id := v.Size()
+	for _, taken := v.idToTerm[id]; taken; _, taken = v.idToTerm[id] {
+		id++
+	}
 	v.termToID[term] = id
 	v.idToTerm[id] = term
 }
-- 
2.43.0


From 0c3ca81e276d8573567c9990c752b2a6d1a521cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 12/16] fix: FromJSONFile rejects terms sharing an ID instead
 of picking one at random

---
 vocabulary/vocabulary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 70474be..d80feee 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -6,9 +6,12 @@ package vocabulary
 
 import (
 	"encoding/json"
+	"errors"
 	"io/ioutil"
 )
 
+var errDuplicateID = errors.New("vocabulary: two terms share the same ID")
+
 // Vocabulary stores ID-term bidirectional associations.
 type Vocabulary struct {
 	termToID map[string]int
@@ -42,6 +45,9 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
+		if _, taken := idToTerm[id]; taken {
+			return nil, errDuplicateID
+		}
 		idToTerm[id] = term
 	}
 
-- 
2.43.0


From f6cac12495ce67d634848f40b811bf6e75a58e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 13/16] fix: treat the whole CJK Extension E block as Chinese
 characters

---
 normalizers/bertnormalizer/bertnormalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizers/bertnormalizer/bertnormalizer.go b/normalizers/bertnormalizer/bertnormalizer.go
index 3ff4501..60df23b 100644
--- a/normalizers/bertnormalizer/bertnormalizer.go
+++ b/normalizers/bertnormalizer/bertnormalizer.go
@@ -118,7 +118,7 @@ var chineseCharacters = &unicode.RangeTable{
 		{0x20000, 0x2a6df, 1},
 		{0x2a700, 0x2b73f, 1},
 		{0x2b740, 0x2b81f, 1},
-		{0x2b920, 0x2ceaf, 1},
+		{0x2b820, 0x2ceaf, 1},
 		{0x2f800, 0x2fa1f, 1},
 	},
 }
-- 
2.43.0


From 339c06571b57d7c0f49745ed1f6d9f29c1f44c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 14/16] fix: prepending an empty string keeps the alignment of
 the first rune

---
 normalizedstring/normalizedstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 694f0c6..4dc293d 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -441,7 +441,7 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 //
 // FIXME: Prepend does nothing if the normalized string is empty
 func (ns *NormalizedString) Prepend(s string) {
-	if len(ns.normalized) == 0 {
+	if len(ns.normalized) == 0 || len(s) == 0 {
 		return
 	}
 
-- 
2.43.0


From ed1a666d349661d71507521c373f52be43a318ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 15/16] fix: BytesToRuneOffsetConverter counts runes, not bytes

---
 strutils/strutils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index 530a330..e3d9122 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -52,10 +52,12 @@ type BytesToRuneOffsetConverter struct {
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
 	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
+	runeIndex := 0
+	for _, r := range sequence {
 		for range []byte(string(r)) {
 			mapping = append(mapping, runeIndex)
 		}
+		runeIndex++
 	}
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
-- 
2.43.0


From b5eed504257d8c336b7b06be532dd8f5956189b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:13 +0000
Subject: [PATCH 16/16] fix: the default byte-level expression tells upper from
 lower case, as GPT-2's does

---
 pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
index c81f207..1b4f5b5 100644
--- a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
+++ b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
@@ -40,7 +40,7 @@ var _ pretokenizers.PreTokenizer = &ByteLevelPreTokenizer{}
 // This MUST be treated as a read-only constant value .
 var DefaultSplittingRegexp = regexp2.MustCompile(
 	`'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`,
-	regexp2.IgnoreCase|regexp2.Multiline)
+	regexp2.Multiline)
 
 // New returns a new ByteLevelPreTokenizer.
 func New(
-- 
2.43.0

