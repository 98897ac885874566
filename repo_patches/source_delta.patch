From bb263c65944b3407de6ee4a3c6f6f5a3c34a1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 01/89] fix: read back categorical attributes without values

---
 base/categorical.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/categorical.go b/base/categorical.go
index ddcffb1..aed0a8a 100644
--- a/base/categorical.go
+++ b/base/categorical.go
@@ -31,6 +31,10 @@ func (Attr *CategoricalAttribute) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if d["values"] == nil {
+		// No values were defined when this was serialised
+		return nil
+	}
 	for _, v := range d["values"].([]interface{}) {
 		Attr.values = append(Attr.values, v.(string))
 	}
-- 
2.43.0


From 49b33811ca5b9d4ef457d863accc24a0d6953279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 02/89] fix: refuse attributes added to a group after rows
 exist

---
 base/dense.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index d3a87df..05c0f46 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -237,6 +237,10 @@ func (inst *DenseInstances) AddAttributeToAttributeGroup(newAttribute Attribute,
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	if inst.fixed {
+		return AttributeSpec{-1, 0, nil}, fmt.Errorf("Can't add additional Attributes")
+	}
+
 	// Check if the ag exists
 	if _, ok := inst.agMap[ag]; !ok {
 		return AttributeSpec{-1, 0, nil}, fmt.Errorf("AttributeGroup '%s' doesn't exist. Call CreateAttributeGroup() first", ag)
-- 
2.43.0


From d21168754d47bec40aab65283fd616c9b0180195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 03/89] fix: iterate a view's rows in order through its row
 mapping

---
 base/view.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/view.go b/base/view.go
index 99d59d8..030d1b6 100644
--- a/base/view.go
+++ b/base/view.go
@@ -205,10 +205,11 @@ func (v *InstancesView) Get(as AttributeSpec, row int) []byte {
 // IMPORTANT: MapOverRows is not guaranteed to be ordered, but this one
 // especially so.
 func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, int) (bool, error)) error {
-	if v.maskRows {
+	if v.rows != nil {
 		rowBuf := make([][]byte, len(as))
-		for r := range v.rows {
-			row := v.rows[r]
+		_, rows := v.Size()
+		for r := 0; r < rows; r++ {
+			row := v.resolveRow(r)
 			for i, a := range as {
 				rowBuf[i] = v.src.Get(a, row)
 			}
-- 
2.43.0


From b58f5101738adc4de52e3436ebe24387989b9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 04/89] fix: make LazyShuffle a permutation of the rows

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2def385..b6cab3b 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -402,8 +402,8 @@ func LazyShuffle(from FixedDataGrid) FixedDataGrid {
 	rowMap := make(map[int]int)
 	for i := 0; i < rows; i++ {
 		j := rand.Intn(i + 1)
-		rowMap[i] = j
-		rowMap[j] = i
+		rowMap[i] = i
+		rowMap[i], rowMap[j] = rowMap[j], rowMap[i]
 	}
 	return NewInstancesViewFromRows(from, rowMap)
 }
-- 
2.43.0


From 8b9cb6cc45c11dceb6be447da5d8cc6c458c3ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 05/89] fix: sample exactly the requested number of rows

---
 base/util_instances.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index b6cab3b..bdaf165 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -429,13 +429,12 @@ func Shuffle(from FixedDataGrid) FixedDataGrid {
 // IMPORTANT: There's a high chance of seeing duplicate rows
 // whenever size is close to the row count.
 func SampleWithReplacement(from FixedDataGrid, size int) FixedDataGrid {
-	rowMap := make(map[int]int)
+	sampled := make([]int, size)
 	_, rows := from.Size()
 	for i := 0; i < size; i++ {
-		srcRow := rand.Intn(rows)
-		rowMap[i] = srcRow
+		sampled[i] = rand.Intn(rows)
 	}
-	return NewInstancesViewFromRows(from, rowMap)
+	return NewInstancesViewFromVisible(from, sampled, from.AllAttributes())
 }
 
 // CheckCompatible checks whether two DataGrids have the same Attributes
-- 
2.43.0


From 1b716c17ae0ed4f08bce976e0e4cffd1136ffeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 06/89] fix: count every row in class distributions by value

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index bdaf165..7bb859f 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -146,7 +146,7 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 			ret[0]++
 		}
 
-		return false, nil
+		return true, nil
 	})
 
 	return ret
@@ -177,7 +177,7 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
 		index := UnpackBytesToU64(vals[0])
 		ret[int(index)]++
-		return false, nil
+		return true, nil
 	})
 
 	return ret
-- 
2.43.0


From dff3d2a26d582ffd7653df8c20dacd9c660c534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 07/89] fix: sort by the numeric order of every sort attribute

---
 base/sort.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index 1cbfa57..0c8fad4 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -5,10 +5,23 @@ import (
 	"encoding/binary"
 )
 
-func sortXorOp(b []byte) []byte {
+// sortKey returns little-endian bytes whose unsigned order is the order
+// of the values of the given Attribute.
+func sortKey(a Attribute, b []byte) []byte {
 	ret := make([]byte, len(b))
 	copy(ret, b)
-	ret[0] ^= 0x80
+	if _, ok := a.(*FloatAttribute); ok {
+		bits := UnpackBytesToU64(b)
+		if bits == 1<<63 {
+			bits = 0 // -0.0 is equal to 0.0
+		}
+		if bits&(1<<63) != 0 {
+			bits = ^bits
+		} else {
+			bits |= 1 << 63
+		}
+		PackU64ToBytesInline(bits, ret)
+	}
 	return ret
 }
 
@@ -47,11 +60,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		byteBuf := make([]byte, rowSize)
 
 		for i, r := range row {
-			if i == 0 {
-				binary.Write(buf, binary.LittleEndian, sortXorOp(r))
-			} else {
-				binary.Write(buf, binary.LittleEndian, r)
-			}
+			binary.Write(buf, binary.LittleEndian, sortKey(attrs[i].GetAttribute(), r))
 		}
 
 		buf.Read(byteBuf)
-- 
2.43.0


From dc0ea109ff648f989df626dd39fc1079ac051e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 08/89] fix: copy the structure of grids with several
 categorical attributes

---
 base/util_instances.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 7bb859f..e420c56 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -44,10 +44,12 @@ func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *De
 		if ag, ok := template.agRevMap[s.pond]; !ok {
 			panic(ag)
 		} else {
-			_, err := instances.AddAttributeToAttributeGroup(a, ag)
+			// The template already holds these Attributes together
+			err := instances.ags[instances.agMap[ag]].AddAttribute(a)
 			if err != nil {
 				panic(err)
 			}
+			instances.attributes = append(instances.attributes, a)
 		}
 	}
 	return instances
-- 
2.43.0


From d58b85f8ff17a207dac7c4f42c01bd808ff832c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 09/89] fix: do not count the header as a row when parsing with
 attribute groups

---
 base/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 93bb63d..0cee9b7 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -295,6 +295,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		return nil, err
 	}
 
+	if hasHeaders {
+		rowCount--
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From 1218d43cd35d5e48a7be1dec1a00b5a9bfac7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:25 +0000
Subject: [PATCH 10/89] fix: report CSV text without data rows as an error

---
 base/csv.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 0cee9b7..6978311 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -212,6 +212,9 @@ func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 1 {
+		return nil, fmt.Errorf("no data rows")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
@@ -260,6 +263,9 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 1 {
+		return nil, fmt.Errorf("no data rows")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
@@ -298,6 +304,9 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 1 {
+		return nil, fmt.Errorf("no data rows")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
-- 
2.43.0


From 38b07e9207120e58756041111524956ecee7581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:30 +0000
Subject: [PATCH 11/89] fix: create and truncate the files grids are written to

---
 base/arff.go                | 2 +-
 base/serialize_instances.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 996201b..44188df 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -31,7 +31,7 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
 
 	// Open output file
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 7239776..c1f1dd4 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -12,7 +12,7 @@ import (
 )
 
 func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
 func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c21cbc92d60a2122daa6cc59f59c72901583dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 12/89] fix: report CSV write errors

---
 base/serialize_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index c1f1dd4..1e1ad86 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -74,7 +74,7 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	})
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
 
 // DeserializeInstancesFromTarReader returns DenseInstances from a FunctionalTarReader with the name prefix.
-- 
2.43.0


From c5e756ef52c1b60c4aa956a24aa1c67d2fb443bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 13/89] fix: split nominal ARFF declarations at commas

---
 base/arff.go | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 44188df..2f1784d 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -146,27 +146,11 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		default:
 			if fields[2][0] == '{' {
 				if strings.HasSuffix(fields[len(fields)-1], "}") {
-					var cats []string
-					if len(fields) > 3 {
-						cats = fields[2:len(fields)]
-					} else {
-						cats = strings.Split(fields[2], ",")
-					}
-					if len(cats) == 0 {
-						panic(fmt.Errorf("Empty categorical field on line '%s'", line))
-					}
-					cats[0] = cats[0][1:]                                            // Remove leading '{'
-					cats[len(cats)-1] = cats[len(cats)-1][:len(cats[len(cats)-1])-1] // Remove trailing '}'
-					for i, v := range cats {                                         // Miaow
-						cats[i] = strings.TrimSpace(v)
-						if strings.HasSuffix(cats[i], ",") {
-							// Strip end comma
-							cats[i] = cats[i][0 : len(cats[i])-1]
-						}
-					}
+					list := strings.Join(fields[2:], " ")
+					list = list[1 : len(list)-1] // Remove the brackets
 					attr = NewCategoricalAttribute()
-					for _, v := range cats {
-						attr.GetSysValFromString(v)
+					for _, v := range strings.Split(list, ",") {
+						attr.GetSysValFromString(strings.TrimSpace(v))
 					}
 				} else {
 					panic(fmt.Errorf("Missing categorical bracket on line '%s'", line))
-- 
2.43.0


From da893b347e938d3c457c8c7f34bc0877e9b1f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 14/89] fix: count the same ARFF data rows as are parsed

---
 base/arff.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 2f1784d..72926bd 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -91,9 +91,6 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if counting {
-			if line[0] == '@' {
-				continue
-			}
 			if line[0] == '%' {
 				continue
 			}
@@ -101,7 +98,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if line[0] == '@' {
-			line = strings.ToLower(line)
+			line = strings.TrimSpace(strings.ToLower(line))
 			if line == "@data" {
 				counting = true
 			}
-- 
2.43.0


From ed811115053215881d10e1e64631ca392b8e1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 15/89] fix: refuse ARFF rows with the wrong number of values

---
 base/arff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/arff.go b/base/arff.go
index 72926bd..f2a5968 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -207,6 +207,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 				} else if err != nil {
 					return err
 				}
+				if len(r) != len(specs) {
+					return fmt.Errorf("Expected %d values on line '%s'", len(specs), line)
+				}
 				for i, v := range r {
 					v = strings.TrimSpace(v)
 					if a, ok := specs[i].attr.(*CategoricalAttribute); ok {
-- 
2.43.0


From cff993af5448ed4a33abb82880d66e6c265e1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 16/89] fix: refuse ARFF documents without attributes

---
 base/arff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/arff.go b/base/arff.go
index f2a5968..76a72ce 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -252,6 +252,9 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 
 	// Get the Attributes we want
 	attrs := ParseARFFGetAttributes(filepath)
+	if len(attrs) == 0 {
+		return nil, fmt.Errorf("No attributes declared")
+	}
 
 	// Allocate return value
 	ret = NewDenseInstances()
-- 
2.43.0


From feadb68dfa22401264e4380eb5a3cdd5cfeb87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 17/89] fix: read ARFF lines of any length

---
 base/arff.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 76a72ce..7c3a8d5 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -6,11 +6,19 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"runtime"
 	"strings"
 )
 
+// newLineScanner returns a line scanner without bufio's line length limit.
+func newLineScanner(r io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32)
+	return scanner
+}
+
 // SerializeInstancesToDenseARFF writes the given FixedDataGrid to a
 // densely-formatted ARFF file.
 func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) error {
@@ -84,7 +92,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 
 	counting := false
 	count := 0
-	scanner := bufio.NewScanner(f)
+	scanner := newLineScanner(f)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) == 0 {
@@ -117,7 +125,7 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 	}
 	defer f.Close()
 
-	scanner := bufio.NewScanner(f)
+	scanner := newLineScanner(f)
 	for scanner.Scan() {
 		var attr Attribute
 		line := scanner.Text()
@@ -189,7 +197,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}()
 
-	scanner := bufio.NewScanner(r)
+	scanner := newLineScanner(r)
 	reading := false
 	specs := ResolveAttributes(u, attrs)
 	for scanner.Scan() {
-- 
2.43.0


From feca7f3ada050272dca73e864295c11945fc1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 18/89] fix: read archived cells in full

---
 base/serialize_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 1e1ad86..49f543a 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -166,7 +166,7 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 	for i := 0; i < rowCount; i++ {
 		for j, s := range specs {
 			r := ret.Get(s, i)
-			n, err := reader.Read(r)
+			n, err := io.ReadFull(reader, r)
 			if n != len(r) {
 				return nil, WrapError(fmt.Errorf("Expected %d bytes (read %d) on row %d", len(r), n, i))
 			}
-- 
2.43.0


From 889f64e6590d2d55c7151c72d57262c3f9e2c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 19/89] fix: convert data frame floats exactly

---
 base/dataframe_go.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index b5a186f..40603ef 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"fmt"
 	"reflect"
 	"strconv"
 
@@ -53,9 +52,9 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 			case int64:
 				val = strconv.FormatInt(v, 10)
 			case float64:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(float64(v), 'g', -1, 64)
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0


From fe0a30aa81c5daddab4e804c8849df63ff5a14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 20/89] fix: compare group lengths in CheckStrictlyCompatible

---
 base/util_instances.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index e420c56..49c91d6 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -491,6 +491,9 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 		ag2 := d2ags[a]
 		a1 := ag1.Attributes()
 		a2 := ag2.Attributes()
+		if len(a1) != len(a2) {
+			return false
+		}
 		for i := range a1 {
 			at1 := a1[i]
 			at2 := a2[i]
-- 
2.43.0


From 5508811ec29cbbdf957ad9cadfbbae1f776c4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 21/89] fix: finish model archives in Save, not in
 SaveWithPrefix

---
 knn/knn.go        | 19 +++++++++++++------
 meta/one_v_all.go |  9 +++++++--
 trees/id3.go      |  7 ++++++-
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 0ce44fa..5b81a69 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -350,17 +350,24 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 		return err
 	}
 	fmt.Printf("writer: %v", writer)
-	return KNN.SaveWithPrefix(writer, "")
+	err = KNN.SaveWithPrefix(writer, "")
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
-	if err != nil {
-		return err
+	// The stub already holds the top-level metadata
+	if prefix != "" {
+		err := writer.WriteMetadataAtPrefix(prefix, KNN.GetMetadata())
+		if err != nil {
+			return err
+		}
 	}
-	err = writer.Close()
-	return err
+	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
 // Load reloads a given KNN classifier when it's the only thing in the output file.
diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index e6a7e6f..f47e705 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -254,7 +254,12 @@ func (m *OneVsAllModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	return m.SaveWithPrefix(writer, "")
+	err = m.SaveWithPrefix(writer, "")
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -324,7 +329,7 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		}
 	}
 
-	return writer.Close()
+	return nil
 }
 
 func (m *OneVsAllModel) generateAttributes(from base.FixedDataGrid) map[base.Attribute]base.Attribute {
diff --git a/trees/id3.go b/trees/id3.go
index 8574d48..7dd6f80 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -571,7 +571,12 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 		return err
 	}
 	fmt.Printf("writer: %v", writer)
-	return t.SaveWithPrefix(writer, "")
+	err = t.SaveWithPrefix(writer, "")
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-- 
2.43.0


From 4527e56700e3b6310170d948814f7837477ed583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 22/89] fix: verify archive checksums before using their
 contents

---
 base/serialize.go           | 5 +++++
 base/serialize_instances.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 5cf7ebe..7adda69 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -128,6 +128,11 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 		return nil, DescribeError("Can't decompress", err)
 	}
 
+	// Check the whole stream against its checksum
+	if _, err = io.Copy(ioutil.Discard, gzr); err != nil {
+		return nil, DescribeError("Can't decompress", err)
+	}
+
 	regenerateFunc := func() *tar.Reader {
 		f.Seek(0, os.SEEK_SET)
 		gzr.Reset(f)
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 49f543a..0a91fb3 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -6,6 +6,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"reflect"
 	"runtime"
@@ -201,6 +202,10 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 	if err != nil {
 		panic(WrapError(err))
 	}
+	// Check the whole stream against its checksum
+	if _, err = io.Copy(ioutil.Discard, gzReader); err != nil {
+		return nil, WrapError(err)
+	}
 	regenerateTarReader := func() *tar.Reader {
 		f.Seek(0, os.SEEK_SET)
 		gzReader.Reset(f)
-- 
2.43.0


From fff33980223e0325fd2711f2cfaafe65958993d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 23/89] fix: choose a fixed branch for values a decision tree
 has not seen

---
 trees/id3.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 7dd6f80..97659ac 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -352,6 +352,22 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 }
 
+// closestChild returns the child which handles a value that none of the
+// children was built for: the first one after it in order, or the last one.
+func (d *DecisionTreeNode) closestChild(val string) *DecisionTreeNode {
+	var keys []string
+	for c := range d.Children {
+		keys = append(keys, c)
+	}
+	sort.Strings(keys)
+	for _, c := range keys {
+		if c > val {
+			return d.Children[c]
+		}
+	}
+	return d.Children[keys[len(keys)-1]]
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
@@ -394,15 +410,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.closestChild(classVar)
 				}
 			}
 		}
@@ -480,15 +488,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.closestChild(classVar)
 				}
 			}
 		}
-- 
2.43.0


From e9f6654ff6e5a79195ca0f0330388dc71d13a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 24/89] fix: count bagged votes in model order

---
 meta/bagging.go | 76 +++++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index f509463..98f5258 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -102,35 +102,9 @@ func (b *BaggedModel) Fit(from base.FixedDataGrid) {
 // achieved the tie value is output.
 func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, error) {
 	n := runtime.NumCPU()
-	// Channel to receive the results as they come in
-	votes := make(chan base.DataGrid, n)
-	// Count the votes for each class
-	voting := make(map[int](map[string]int))
-
-	// Create a goroutine to collect the votes
-	var votingwait sync.WaitGroup
-	votingwait.Add(1)
-	go func() {
-		for { // Need to resolve the voting problem
-			incoming, ok := <-votes
-			if ok {
-				cSpecs := base.ResolveAttributes(incoming, incoming.AllClassAttributes())
-				incoming.MapOverRows(cSpecs, func(row [][]byte, predRow int) (bool, error) {
-					// Check if we've seen this class before...
-					if _, ok := voting[predRow]; !ok {
-						// If we haven't, create an entry
-						voting[predRow] = make(map[string]int)
-						// Continue on the current row
-					}
-					voting[predRow][base.GetClass(incoming, predRow)]++
-					return true, nil
-				})
-			} else {
-				votingwait.Done()
-				break
-			}
-		}
-	}()
+	// The results, one for each model
+	votes := make([]base.FixedDataGrid, len(b.Models))
+	errors := make([]error, len(b.Models))
 
 	// Create workers to process the predictions
 	processpipe := make(chan int, n)
@@ -142,8 +116,7 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 				if i, ok := <-processpipe; ok {
 					c := b.Models[i]
 					l := b.generatePredictionInstances(i, from)
-					v, _ := c.Predict(l)
-					votes <- v
+					votes[i], errors[i] = c.Predict(l)
 				} else {
 					processwait.Done()
 					break
@@ -158,23 +131,40 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	}
 	close(processpipe) // Finished sending models to be predicted
 	processwait.Wait() // Predictors all finished processing
-	close(votes)       // Close the vote channel and allow it to drain
-	votingwait.Wait()  // All the votes are in
+
+	// Count the votes for each class, one model after another
+	_, rows := from.Size()
+	voting := make([]map[string]int, rows)
+	maxClass := make([]string, rows)
+	maxCount := make([]int, rows)
+	for i, incoming := range votes {
+		if errors[i] != nil {
+			return nil, errors[i]
+		}
+		cSpecs := base.ResolveAttributes(incoming, incoming.AllClassAttributes())
+		incoming.MapOverRows(cSpecs, func(row [][]byte, predRow int) (bool, error) {
+			// Check if we've seen this row before...
+			if voting[predRow] == nil {
+				// If we haven't, create an entry
+				voting[predRow] = make(map[string]int)
+			}
+			class := base.GetClass(incoming, predRow)
+			voting[predRow][class]++
+			// Track the first class to achieve the highest count
+			if voting[predRow][class] > maxCount[predRow] {
+				maxClass[predRow] = class
+				maxCount[predRow] = voting[predRow][class]
+			}
+			return true, nil
+		})
+	}
 
 	// Generate the overall consensus
 	ret := base.GeneratePredictionVector(from)
 	for i := range voting {
-		maxClass := ""
-		maxCount := 0
-		// Find the most popular class
-		for c := range voting[i] {
-			votes := voting[i][c]
-			if votes > maxCount {
-				maxClass = c
-				maxCount = votes
-			}
+		if voting[i] != nil {
+			base.SetClass(ret, i, maxClass[i])
 		}
-		base.SetClass(ret, i, maxClass)
 	}
 	return ret, nil
 }
-- 
2.43.0


From f7ef5a138694530c29571fa13dea091606cbe846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 25/89] fix: do not search the empty branches of a kd-tree

---
 kdtree/kdtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 6bddbe8..3b3347c 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -192,6 +192,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 }
 
 func (t *Tree) searchAllNodes(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
+	if n.feature == -2 {
+		return
+	}
+
 	vectorX := mat.NewDense(len(target), 1, target)
 	vectorY := mat.NewDense(len(target), 1, n.value)
 	length := disType.Distance(vectorX, vectorY)
-- 
2.43.0


From 05f44c31a20c777423c630f6f12dc0e5d27cd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 26/89] fix: do not prune kd-tree branches by cosine distance

---
 kdtree/kdtree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 3b3347c..32a5a7f 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -181,7 +181,9 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 		vectorY = mat.NewDense(1, 1, []float64{n.value[n.feature]})
 		length = disType.Distance(vectorX, vectorY)
 
-		if h.maximum().length > length {
+		// The cosine distance to the dividing plane bounds nothing
+		_, unbounded := disType.(*pairwise.Cosine)
+		if unbounded || h.maximum().length > length {
 			if dir {
 				t.searchAllNodes(k, disType, target, h, n.right)
 			} else {
-- 
2.43.0


From 5c5972962b953e03f70cc575920b9d17f5acb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 27/89] fix: weight votes when the optimised search would be
 used

---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index 5b81a69..1a7d760 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -126,7 +126,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Use optimised version if permitted
-	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
+	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
 			if KNN.canUseOptimisations(what) {
 				return KNN.optimisedEuclideanPredict(what.(*base.DenseInstances)), nil
-- 
2.43.0


From b42f50ab5369d7ce545287d83476231f6998e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 28/89] fix: refuse to predict with fewer training rows than
 neighbours

---
 knn/knn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index 1a7d760..d870842 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -125,6 +125,12 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("attributes not compatible")
 	}
 
+	// Check that there are enough neighbours
+	_, trainRows := KNN.TrainingData.Size()
+	if KNN.NearestNeighbours > trainRows {
+		return nil, errors.New("not enough training data for the number of neighbours")
+	}
+
 	// Use optimised version if permitted
 	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
-- 
2.43.0


From 5f32a2a687b7b15cd27bf1e1043caf8db68e8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 29/89] fix: never measure distances over the class attribute

---
 knn/knn.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index d870842..4abb26a 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -140,20 +140,14 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
-	// Remove the Attributes which aren't numeric
+	// Remove the Attributes which aren't numeric, or which we're trying to predict
 	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
+	for _, a := range base.AttributeDifference(allAttrs, KNN.TrainingData.AllClassAttributes()) {
 		if fAttr, ok := a.(*base.FloatAttribute); ok {
 			allNumericAttrs = append(allNumericAttrs, fAttr)
 		}
 	}
 
-	// If every Attribute is a FloatAttribute, then we remove the last one
-	// because that is the Attribute we are trying to predict.
-	if len(allNumericAttrs) == len(allAttrs) {
-		allNumericAttrs = allNumericAttrs[:len(allNumericAttrs)-1]
-	}
-
 	// Generate return vector
 	ret := base.GeneratePredictionVector(what)
 
-- 
2.43.0


From 3abf42a29caa7841a75244e5d8adf312b132afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 30/89] fix: use every component of row vectors in the
 polynomial kernel

---
 metrics/pairwise/poly_kernel.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics/pairwise/poly_kernel.go b/metrics/pairwise/poly_kernel.go
index ce3d6ec..d5b44b5 100644
--- a/metrics/pairwise/poly_kernel.go
+++ b/metrics/pairwise/poly_kernel.go
@@ -18,9 +18,9 @@ func NewPolyKernel(degree int) *PolyKernel {
 // InnerProduct computes the inner product through a kernel trick
 // K(x, y) = (x^T y + 1)^d
 func (p *PolyKernel) InnerProduct(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
-	subVectorX := vectorX.ColView(0)
-	subVectorY := vectorY.ColView(0)
-	result := mat.Dot(subVectorX, subVectorY)
+	product := new(mat.Dense)
+	product.MulElem(vectorX, vectorY)
+	result := mat.Sum(product)
 	result = math.Pow(result+1, float64(p.degree))
 
 	return result
-- 
2.43.0


From 217e86fbe65b229b7edae4548ab98b05144c18ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 31/89] fix: keep cosine distances between 0 and 2

---
 metrics/pairwise/cosine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metrics/pairwise/cosine.go b/metrics/pairwise/cosine.go
index 08b9ca1..31d93f6 100644
--- a/metrics/pairwise/cosine.go
+++ b/metrics/pairwise/cosine.go
@@ -30,5 +30,8 @@ func (c *Cosine) Distance(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
 
 	cos := dotXY / (lengthX * lengthY)
 
+	// Rounding can take the cosine out of its range
+	cos = math.Max(-1, math.Min(1, cos))
+
 	return 1 - cos
 }
-- 
2.43.0


From 5fe52c72ed419568a7c3dbeef10a488d634dfddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 32/89] fix: count every false positive in the micro-averaged
 precision

---
 evaluation/confusion.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index eb71faf..dfcf498 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -132,9 +132,18 @@ func GetAccuracy(c ConfusionMatrix) float64 {
 // GetMicroPrecision assesses Classifier performance across
 // all classes using the total true positives and false positives.
 func GetMicroPrecision(c ConfusionMatrix) float64 {
+	// Classes can be predicted without being in the reference
+	classes := make(map[string]bool)
+	for k := range c {
+		classes[k] = true
+		for l := range c[k] {
+			classes[l] = true
+		}
+	}
+
 	truePositives := 0.0
 	falsePositives := 0.0
-	for k := range c {
+	for k := range classes {
 		truePositives += GetTruePositives(k, c)
 		falsePositives += GetFalsePositives(k, c)
 	}
-- 
2.43.0


From f86a0321d683bfa8c4ecf4a8752c60f68dbfdfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 33/89] fix: leave untouched attributes alone when iterating
 filtered rows

---
 base/filtered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/filtered.go b/base/filtered.go
index 0d4f77f..cf25f59 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -186,6 +186,10 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
+			if l.unfilteredMap[asv[i].attr] {
+				newRowBuf[i] = b
+				continue
+			}
 			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
-- 
2.43.0


From 676067766efc8504174472cb5536a38c7e980b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:30 +0000
Subject: [PATCH 34/89] fix: report the filtered number of attributes in Size

---
 base/filtered.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index cf25f59..6bf693a 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -218,10 +218,11 @@ func (l *LazilyFilteredInstances) RowString(row int) string {
 	return buffer.String() // Return the result
 }
 
-// Size returns the number of Attributes and rows of the underlying
-// FixedDataGrid.
+// Size returns the number of Attributes after filtering, and the number
+// of rows of the underlying FixedDataGrid.
 func (l *LazilyFilteredInstances) Size() (int, int) {
-	return l.src.Size()
+	_, rows := l.src.Size()
+	return len(l.AllAttributes()), rows
 }
 
 // String returns a human-readable summary of this FixedDataGrid
-- 
2.43.0


From f6773d95d24d791aaf8a978db7ce0f6dc5f5a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:39 +0000
Subject: [PATCH 35/89] fix: remove every filtered form of a class attribute

---
 base/filtered.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 6bf693a..efebe1d 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -113,13 +113,17 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 		l.classAttrs[cls] = false
 		return nil
 	}
+	matched := false
 	for _, a := range l.attrs {
 		if a.Old.Equals(cls) || a.New.Equals(cls) {
 			l.classAttrs[a.New] = false
-			return nil
+			matched = true
 		}
 	}
-	return fmt.Errorf("Attribute %s could not be resolved", cls)
+	if !matched {
+		return fmt.Errorf("Attribute %s could not be resolved", cls)
+	}
+	return nil
 }
 
 // AllClassAttributes returns details of all Attributes currently specified
-- 
2.43.0


From 523ba55b903626bfb8bdd563fe7e7523335574d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:43 +0000
Subject: [PATCH 36/89] fix: treat negative numbers as non-zero in
 BinaryConvertFilter

---
 filters/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/binary.go b/filters/binary.go
index 291ac7d..de95b09 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -93,7 +93,7 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 	} else if _, ok := a.(*base.FloatAttribute); ok {
 		// Float: check for non-zero
 		val := base.UnpackBytesToFloat(attrBytes)
-		if val > 0 {
+		if val != 0 {
 			ret[0] = 1
 		} else {
 			ret[0] = 0
-- 
2.43.0


From c1cf3395b6f212d5bb970b0094e194f23a1eacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:16 +0000
Subject: [PATCH 37/89] fix: keep binned values within the bins

---
 filters/binning.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filters/binning.go b/filters/binning.go
index fb9ebf6..bd2eb7d 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -88,8 +88,10 @@ func (b *BinningFilter) Transform(a base.Attribute, n base.Attribute, field []by
 	// Casts to float64 to replicate a floating point precision error
 	delta := float64(maxVal-minVal) / float64(b.bins)
 	val := float64(af.GetFloatFromSysVal(field))
-	if val <= minVal {
+	if val <= minVal || delta == 0 {
 		disc = 0
+	} else if val >= maxVal {
+		disc = b.bins
 	} else {
 		disc = int(math.Floor(float64(float64(val-minVal)/delta + 0.0001)))
 	}
-- 
2.43.0


From 8d61e050e57172b38d05eeb94b601f737f71c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 38/89] fix: give every bin its own label

---
 filters/binning.go | 10 +++++++---
 filters/disc.go    | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/filters/binning.go b/filters/binning.go
index bd2eb7d..34f14c1 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -110,10 +110,14 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 			maxVal := b.maxVals[a]
 			delta := float64(maxVal-minVal) / float64(b.bins)
 			retAttr.SetName(a.GetName())
-			for i := 0; i <= b.bins; i++ {
+			starts := []float64{minVal}
+			for i := 1; i <= b.bins; i++ {
 				floatVal := float64(i)*delta + minVal
-				fmtStr := fmt.Sprintf("%%.%df", a.(*base.FloatAttribute).Precision)
-				binVal := fmt.Sprintf(fmtStr, floatVal)
+				if floatVal > starts[len(starts)-1] {
+					starts = append(starts, floatVal)
+				}
+			}
+			for _, binVal := range distinctLabels(starts, a.(*base.FloatAttribute).Precision) {
 				retAttr.GetSysValFromString(binVal)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
diff --git a/filters/disc.go b/filters/disc.go
index 940829e..d817d85 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -3,6 +3,7 @@ package filters
 import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
+	"strconv"
 )
 
 type AbstractDiscretizeFilter struct {
@@ -60,3 +61,21 @@ func (d *AbstractDiscretizeFilter) getAttributeSpecs() []base.AttributeSpec {
 	}
 	return as
 }
+
+// distinctLabels formats strictly ascending values with the given number of
+// decimal places, or as many more as it takes to tell them apart.
+func distinctLabels(vals []float64, precision int) []string {
+	for ; ; precision++ {
+		ret := make([]string, len(vals))
+		distinct := true
+		for i, v := range vals {
+			ret[i] = strconv.FormatFloat(v, 'f', precision, 64)
+			if i > 0 && ret[i] == ret[i-1] {
+				distinct = false
+			}
+		}
+		if distinct || precision > 400 {
+			return ret
+		}
+	}
+}
-- 
2.43.0


From f85c5c78530e74cf878701e947f703b0c8b17eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 39/89] fix: put values equal to an interval's start in that
 interval

---
 filters/chimerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index 826e8d0..d197c51 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -173,7 +173,7 @@ func (c *ChiMergeFilter) Transform(a base.Attribute, n base.Attribute, field []b
 	dis := 0
 	val := base.UnpackBytesToFloat(field)
 	for j, k := range table {
-		if k.Value < val {
+		if k.Value <= val {
 			dis = j
 			continue
 		}
-- 
2.43.0


From 45b2105d3aa7c4ff736837d3925351246613291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 40/89] fix: give every ChiMerge interval its own label

---
 filters/chimerge.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index d197c51..e727a68 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -151,8 +151,12 @@ func (c *ChiMergeFilter) GetAttributesAfterFiltering() []base.FilteredAttribute
 		if c.attrs[a] {
 			retAttr := new(base.CategoricalAttribute)
 			retAttr.SetName(a.GetName())
-			for _, k := range c.tables[a] {
-				retAttr.GetSysValFromString(fmt.Sprintf("%f", k.Value))
+			starts := make([]float64, len(c.tables[a]))
+			for i, k := range c.tables[a] {
+				starts[i] = k.Value
+			}
+			for _, label := range distinctLabels(starts, 6) {
+				retAttr.GetSysValFromString(label)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
-- 
2.43.0


From 83a2c821c5e3d3794fa286fd1cb11e58e11c4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 41/89] fix: never merge below the minimum number of intervals

---
 filters/chimerge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index e727a68..af1bc18 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -107,6 +107,9 @@ func chiMerge(inst base.FixedDataGrid, attr base.Attribute, sig float64, minrows
 		//  The higher of the two things as the value
 		//  Combining the class frequencies
 		for i, v := range minChiIndexes {
+			if len(freq) <= minrows {
+				break
+			}
 			freq = chiMergeMergeZipAdjacent(freq, v-i)
 		}
 	}
-- 
2.43.0


From 488c84a8116c54de213e0f62d4efd3908e66dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 42/89] fix: compute chi-squared probabilities in closed form

---
 filters/chimerge_funcs.go | 40 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 6b649c1..9be4097 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -51,37 +51,21 @@ func chiSquaredPdf(k float64, x float64) float64 {
 }
 
 func chiSquaredPercentile(k int, x float64) float64 {
-	// Implements Yahya et al.'s "A Numerical Procedure
-	//  for Computing Chi-Square Percentage Points"
-	// InterStat Journal 01/2007; April 25:page:1-8.
-	steps := 32
-	intervals := 4 * steps
-	w := x / (4.0 * float64(steps))
-	values := make([]float64, intervals+1)
-	for i := 0; i < intervals+1; i++ {
-		c := w * float64(i)
-		v := chiSquaredPdf(float64(k), c)
-		values[i] = v
-	}
-
-	ret1 := values[0] + values[len(values)-1]
-	ret2 := 0.0
-	ret3 := 0.0
-	ret4 := 0.0
-
-	for i := 2; i < intervals-1; i += 4 {
-		ret2 += values[i]
+	// Closed form, by recurrence on the degrees of freedom:
+	//  P(k + 2, x) = P(k, x) - 2 * pdf(k + 2, x)
+	if k < 1 || x <= 0 {
+		return 0
 	}
-
-	for i := 4; i < intervals-3; i += 4 {
-		ret3 += values[i]
+	dof := 1
+	ret := math.Erf(math.Sqrt(x / 2))
+	if k%2 == 0 {
+		dof = 2
+		ret = -math.Expm1(-x / 2)
 	}
-
-	for i := 1; i < intervals; i += 2 {
-		ret4 += values[i]
+	for dof += 2; dof <= k; dof += 2 {
+		ret -= 2 * chiSquaredPdf(float64(dof), x)
 	}
-
-	return (2.0 * w / 45) * (7*ret1 + 12*ret2 + 14*ret3 + 32*ret4)
+	return ret
 }
 
 func chiCountClasses(entries []*FrequencyTableEntry) map[string]int {
-- 
2.43.0


From a32018756717a10535d3bb94588dfc07a04c7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 43/89] fix: consider every threshold of a numeric attribute

---
 trees/entropy.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index faa6613..66e5148 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -144,7 +144,6 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
 			splitDist[0][refs[j].class]++
 			splitDist[1][refs[j].class]--
-			i++
 			prevInd++
 		}
 		prevVal = val
-- 
2.43.0


From 5358352d1485696d5b324f27f7189abc717cf724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 44/89] fix: compute the Gini impurity from class counts

---
 trees/gini.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/trees/gini.go b/trees/gini.go
index 23b1569..0d6e996 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -70,18 +70,16 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 
 // computeGini computes the Gini impurity measure
 func computeGini(s map[string]int) float64 {
-	// Compute probability map
-	p := make(map[string]float64)
+	// Count the total number of things
+	total := 0
 	for i := range s {
-		if p[i] == 0 {
-			continue
-		}
-		p[i] = 1.0 / float64(p[i])
+		total += s[i]
 	}
-	// Compute overall sum
+	// Compute overall sum of squared probabilities
 	sum := 0.0
-	for i := range p {
-		sum += p[i] * p[i]
+	for i := range s {
+		p := float64(s[i]) / float64(total)
+		sum += p * p
 	}
 
 	return 1.0 - sum
-- 
2.43.0


From 4a551af3556e357353297f53ff2213704d62a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 45/89] fix: never split on a constant attribute with the Gini
 rule

---
 trees/gini.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trees/gini.go b/trees/gini.go
index 0d6e996..206997d 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -49,6 +49,10 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 		var splitVal float64
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			_, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitVal, 1) {
+				// All values are equal, so there's nothing to split
+				continue
+			}
 			proposedDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
 			proposedDist = base.GetClassDistributionAfterSplit(f, s)
-- 
2.43.0


From 0f22a666354fe27a1c7d5e50d2924b6272a7cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 46/89] fix: divide information gain by split information in
 the gain ratio rule

---
 trees/gr.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/trees/gr.go b/trees/gr.go
index 46577f5..87c5919 100644
--- a/trees/gr.go
+++ b/trees/gr.go
@@ -56,14 +56,23 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 		var informationGain float64
 		var localEntropy float64
 		var splitVal float64
+		var proposedClassDist map[string]map[string]int
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			localEntropy, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitVal, 1) {
+				// All values are equal, so there's nothing to split
+				continue
+			}
+			proposedClassDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
-			proposedClassDist := base.GetClassDistributionAfterSplit(f, s)
+			proposedClassDist = base.GetClassDistributionAfterSplit(f, s)
 			localEntropy = getSplitEntropy(proposedClassDist)
 		}
 		informationGain = baseEntropy - localEntropy
-		informationGainRatio := informationGain / localEntropy
+		informationGainRatio := 0.0
+		if splitInfo := getSplitInfo(proposedClassDist); splitInfo > 0 {
+			informationGainRatio = informationGain / splitInfo
+		}
 		if informationGainRatio > maxRatio {
 			maxRatio = informationGainRatio
 			selectedAttribute = s
@@ -74,3 +83,15 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 	// Pick the one which maximises IG
 	return &DecisionTreeRule{selectedAttribute, selectedVal}
 }
+
+// getSplitInfo determines the entropy of the sizes of the branches
+// after splitting on an base.Attribute
+func getSplitInfo(s map[string]map[string]int) float64 {
+	sizes := make(map[string]int)
+	for a := range s {
+		for c := range s[a] {
+			sizes[a] += s[a][c]
+		}
+	}
+	return getBaseEntropy(sizes)
+}
-- 
2.43.0


From 5ccc7e22ee50f970283684e7f941f79233a67143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 47/89] fix: stop drawing attributes when a random tree has
 considered them all

---
 trees/random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trees/random.go b/trees/random.go
index c5b44ed..6760433 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -24,7 +24,7 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 
 	attrCounter := 0
 	for {
-		if len(consideredAttributes) >= r.Attributes {
+		if len(consideredAttributes) >= r.Attributes || len(consideredAttributes) >= maximumAttribute {
 			break
 		}
 		selectedAttrIndex := rand.Intn(maximumAttribute)
-- 
2.43.0


From 3c039a7f55a552a33ee7bf0de93b717013941b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 48/89] fix: prune each subtree with the rows it would predict

---
 trees/id3.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 97659ac..c03f6e0 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -322,17 +322,16 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 		return
 	}
 
-	// Recursively prune children of this node
-	sub := base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
-	for k := range d.Children {
-		if sub[k] == nil {
-			continue
-		}
-		subH, subV := sub[k].Size()
-		if subH == 0 || subV == 0 {
-			continue
-		}
-		d.Children[k].Prune(sub[k])
+	// Recursively prune children of this node, each
+	// using the rows which it would be asked to predict
+	sub := make(map[*DecisionTreeNode][]int)
+	_, rows := using.Size()
+	for i := 0; i < rows; i++ {
+		child := d.childFor(using, i)
+		sub[child] = append(sub[child], i)
+	}
+	for child, visible := range sub {
+		child.Prune(base.NewInstancesViewFromVisible(using, visible, using.AllAttributes()))
 	}
 
 	// Get a baseline accuracy
@@ -368,6 +367,28 @@ func (d *DecisionTreeNode) closestChild(val string) *DecisionTreeNode {
 	return d.Children[keys[len(keys)-1]]
 }
 
+// childFor returns the child which handles a given row.
+func (d *DecisionTreeNode) childFor(what base.FixedDataGrid, row int) *DecisionTreeNode {
+	ats, err := what.GetAttribute(d.SplitRule.SplitAttr)
+	if err != nil {
+		panic(err)
+	}
+	val := what.Get(ats, row)
+	var branch string
+	if _, ok := ats.GetAttribute().(*base.FloatAttribute); ok {
+		branch = "0"
+		if base.UnpackBytesToFloat(val) > d.SplitRule.SplitVal {
+			branch = "1"
+		}
+	} else {
+		branch = ats.GetAttribute().GetStringFromSysVal(val)
+	}
+	if next, ok := d.Children[branch]; ok {
+		return next
+	}
+	return d.closestChild(branch)
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
-- 
2.43.0


From f41ea6215d4296096b473228c096e094204f6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 49/89] fix: predict the same on both sides of a CART node
 without a split

---
 trees/cart_classifier.go | 1 +
 trees/cart_regressor.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index daf6a29..3dd2d22 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -277,6 +277,7 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	// If no split was found, we don't want to use this node, so we will flag it
 	if bestGini == origGini {
 		upperNode.isNodeNeeded = false
+		upperNode.RightLabel = upperNode.LeftLabel
 		return upperNode, nil
 	}
 	// Until nodes are not pure
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 69ae9d6..3e95f34 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -255,6 +255,7 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 
 	if bestLoss == origLoss {
 		upperNode.isNodeNeeded = false
+		upperNode.RightPred = upperNode.LeftPred
 		return upperNode, nil
 	}
 
-- 
2.43.0


From 15d0734d06b3c6dcfa902811119faca2c43f87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 50/89] fix: predict the majority label or mean target at depth
 limit 0

---
 trees/cart_classifier.go | 5 ++++-
 trees/cart_regressor.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index 3dd2d22..733d1eb 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -196,7 +196,10 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	depth++
 
 	if maxDepth != -1 && depth > maxDepth {
-		return upperNode, nil
+		var err error
+		_, upperNode.LeftLabel, err = calculateClassificationLoss(y, labels, criterion)
+		upperNode.RightLabel = upperNode.LeftLabel
+		return upperNode, err
 	}
 
 	numFeatures := len(data[0])
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 3e95f34..49ba4df 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -183,7 +183,10 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 	depth++
 
 	if depth > maxDepth && maxDepth != -1 {
-		return upperNode, nil
+		var err error
+		_, upperNode.LeftPred, err = calculateRegressionLoss(y, criterion)
+		upperNode.RightPred = upperNode.LeftPred
+		return upperNode, err
 	}
 
 	numFeatures := len(data[0])
-- 
2.43.0


From 9255f63803f6ebd69017c6178599ee1a5740fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 51/89] fix: let one-vs-all pick the strongest of negative
 outputs

---
 meta/one_v_all.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index f47e705..edd66af 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -119,7 +119,7 @@ func (m *OneVsAllModel) Predict(what base.FixedDataGrid) (base.FixedDataGrid, er
 		best := 0.0
 		for j := uint64(0); j <= m.maxClassVal; j++ {
 			val := base.UnpackBytesToFloat(vecs[j].Get(specs[j], i))
-			if val > best {
+			if j == 0 || val > best {
 				class = j
 				best = val
 			}
-- 
2.43.0


From 600d0e0718f4ab838b2571d135a30167653c23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 52/89] fix: predict with negative features in linear
 classifiers

---
 linear_models/liblinear.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 47e7456..d13ff38 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -90,7 +90,7 @@ func Predict(model *Model, x []float64) float64 {
 func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	n_ele := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			n_ele++
 		}
 	}
@@ -99,7 +99,7 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	c_x := make([]C.struct_feature_node, n_ele)
 	j := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			c_x[j].index = C.int(i + 1)
 			c_x[j].value = C.double(x[i])
 			j++
-- 
2.43.0


From bfb89293eafb143ea7a2482a872997f4b3b28d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 53/89] fix: recognise equal attributes in filtered grids

---
 base/filtered.go | 58 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index efebe1d..a0168d9 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -32,7 +32,16 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 		unFilteredMap[a] = true
 	}
 	for _, a := range attrs {
-		unFilteredMap[a.Old] = false
+		if _, ok := unFilteredMap[a.Old]; ok {
+			unFilteredMap[a.Old] = false
+			continue
+		}
+		// The filter may have been trained on an equal Attribute
+		for b := range unFilteredMap {
+			if b.Equals(a.Old) {
+				unFilteredMap[b] = false
+			}
+		}
 	}
 
 	// Create the return structure
@@ -51,9 +60,22 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	return ret
 }
 
+// isUnfiltered returns whether an Attribute is passed through unmodified.
+func (l *LazilyFilteredInstances) isUnfiltered(target Attribute) bool {
+	if unfiltered, ok := l.unfilteredMap[target]; ok {
+		return unfiltered
+	}
+	for a, unfiltered := range l.unfilteredMap {
+		if unfiltered && a.Equals(target) {
+			return true
+		}
+	}
+	return false
+}
+
 // GetAttribute returns an AttributeSpecification for a given Attribute
 func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec, error) {
-	if l.unfilteredMap[target] {
+	if l.isUnfiltered(target) {
 		return l.src.GetAttribute(target)
 	}
 	var ret AttributeSpec
@@ -141,33 +163,35 @@ func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 	return ret
 }
 
-func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, error) {
-	if l.unfilteredMap[as.GetAttribute()] {
-		return as, nil
+// transformNewToOldAttribute returns the source's AttributeSpec for a given one,
+// and the Attribute by which the filter knows it.
+func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, Attribute, error) {
+	if l.isUnfiltered(as.GetAttribute()) {
+		return as, as.GetAttribute(), nil
 	}
 	for _, a := range l.attrs {
 		if a.Old.Equals(as.attr) || a.New.Equals(as.attr) {
 			as, err := l.src.GetAttribute(a.Old)
 			if err != nil {
-				return AttributeSpec{}, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
+				return AttributeSpec{}, nil, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
 			}
-			return as, nil
+			return as, a.Old, nil
 		}
 	}
-	return AttributeSpec{}, fmt.Errorf("No matching Attribute")
+	return AttributeSpec{}, nil, fmt.Errorf("No matching Attribute")
 }
 
 // Get returns a transformed byte slice stored at a given AttributeSpec and row.
 func (l *LazilyFilteredInstances) Get(as AttributeSpec, row int) []byte {
-	asOld, err := l.transformNewToOldAttribute(as)
+	asOld, old, err := l.transformNewToOldAttribute(as)
 	if err != nil {
 		panic(fmt.Sprintf("Attribute %s could not be resolved. (Error: %s)", as.String(), err.Error()))
 	}
 	byteSeq := l.src.Get(asOld, row)
-	if l.unfilteredMap[as.attr] {
+	if l.isUnfiltered(as.attr) {
 		return byteSeq
 	}
-	newByteSeq := l.filter.Transform(asOld.attr, as.attr, byteSeq)
+	newByteSeq := l.filter.Transform(old, as.attr, byteSeq)
 	return newByteSeq
 }
 
@@ -178,23 +202,27 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	// Have to transform each item of asv into an
 	// AttributeSpec in the original
 	oldAsv := make([]AttributeSpec, len(asv))
+	oldAttrs := make([]Attribute, len(asv))
+	unfiltered := make([]bool, len(asv))
 	for i, a := range asv {
-		old, err := l.transformNewToOldAttribute(a)
+		as, old, err := l.transformNewToOldAttribute(a)
 		if err != nil {
 			return fmt.Errorf("Couldn't fetch old Attribute: '%s'", a.String())
 		}
-		oldAsv[i] = old
+		oldAsv[i] = as
+		oldAttrs[i] = old
+		unfiltered[i] = l.isUnfiltered(a.attr)
 	}
 
 	// Then map over each row in the original
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
-			if l.unfilteredMap[asv[i].attr] {
+			if unfiltered[i] {
 				newRowBuf[i] = b
 				continue
 			}
-			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
+			newField := l.filter.Transform(oldAttrs[i], asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
 		return mapFunc(newRowBuf, oldRowNo)
-- 
2.43.0


From 63be2c57544aa4e72714a7ae4a9028df9e8ecfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 54/89] fix: refuse non-numeric classes in linear regression

---
 linear_models/linear_regression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linear_models/linear_regression.go b/linear_models/linear_regression.go
index eb52c4e..16ee55a 100644
--- a/linear_models/linear_regression.go
+++ b/linear_models/linear_regression.go
@@ -37,6 +37,9 @@ func (lr *LinearRegression) Fit(inst base.FixedDataGrid) error {
 	if len(classAttrs) != 1 {
 		return fmt.Errorf("Only 1 class variable is permitted")
 	}
+	if _, ok := classAttrs[0].(*base.FloatAttribute); !ok {
+		return fmt.Errorf("%s: ClassAttribute must be a FloatAttribute", classAttrs[0])
+	}
 	classAttrSpecs := base.ResolveAttributes(inst, classAttrs)
 
 	// Retrieve relevant Attributes
-- 
2.43.0


From 5da85bbd3e929cda42a0601c8d9c4db97eea7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 55/89] fix: compare cluster sizes in ClusterMap.Equals

---
 clustering/clustering.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustering/clustering.go b/clustering/clustering.go
index 3636d5b..b2022b0 100644
--- a/clustering/clustering.go
+++ b/clustering/clustering.go
@@ -80,6 +80,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	// Check that after transformation, key contains the same points
 	arraysEqual := func(a1, a2 []int) bool {
 
+		if len(a1) != len(a2) {
+			return false
+		}
+
 		cnt := make(map[int]bool)
 		for _, a := range a1 {
 			cnt[a] = true
@@ -96,6 +100,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	}
 	newMap := ClusterMap(make(map[int][]int))
 	for cOld := range other {
+		if len(other[cOld]) == 0 {
+			// Nothing to correspond with
+			continue
+		}
 		cNew := clusterIdMap[cOld]
 		if !arraysEqual(ref[cNew], other[cOld]) {
 			return false, fmt.Errorf("Re-labelled cluster %d => %d doesn't contain the same points (%d, %d)", cOld, cNew, ref[cNew], other[cOld])
-- 
2.43.0


From 2a566d8414b68d6efffcc2920de9f28872728546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 56/89] fix: let DBSCAN claim border points it met before

---
 clustering/dbscan.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 82861f1..8b73458 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -96,15 +96,13 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 					neighbours = neighbours.Or(neighbours, newNeighbours)
 					reset = true
 				}
-			} else {
-				continue
 			}
 			if clustered.Bit(i) == 0 {
 				clusterMap[c] = append(clusterMap[c], i)
 				clustered = clustered.SetBit(clustered, i, 1)
 			}
 			if reset {
-				i = 0
+				i = -1 // Start again from the first row
 			}
 		}
 	}
@@ -118,8 +116,7 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		neighbours := big.NewInt(0)
 		neighbours = regionQuery(i, neighbours, dist, params.Eps)
 		if BitCount(neighbours) < params.MinCount {
-			// Noise, cluster 0
-			clustered = clustered.Or(clustered, neighbours)
+			// Noise, cluster 0 (unless it turns out to border a cluster)
 			continue
 		}
 		c = c + 1 // Increment cluster count
-- 
2.43.0


From 083384382ffe15866122e069dc5b406361147776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 57/89] fix: let EM clustering cope with small components

---
 clustering/em.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustering/em.go b/clustering/em.go
index 70894df..57b7986 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -142,7 +142,8 @@ func maximization(X *mat.Dense, y mat.Vector, p Params, n_comps int) Params {
 		if n_obs <= 1 {
 			p_new.Means.SetRow(k, p.Means.RawRowView(k))
 			covs_k_reg = p.Covs[k]
-		} else if n_obs < n_feats {
+		} else if n_obs <= n_feats {
+			// Not enough rows for a covariance matrix of full rank
 			p_new.Means.SetRow(k, means(X_yk))
 			covs_k_reg = shrunkCovariance(X_yk)
 		} else {
@@ -313,6 +314,9 @@ func where(X *mat.Dense, y mat.Vector, target int) *mat.Dense {
 			rows++
 		}
 	}
+	if rows == 0 {
+		return &mat.Dense{}
+	}
 	X_i := mat.NewDense(rows, n_feats, result)
 	return X_i
 }
-- 
2.43.0


From a19e2fd1302fc828dd37c137b22f50a2f112f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 58/89] fix: fit EM parameters in column order

---
 clustering/em.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustering/em.go b/clustering/em.go
index 57b7986..1f7e63c 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -41,7 +41,7 @@ func NewExpectationMaximization(n_comps int) (*ExpectationMaximization, error) {
 // Fit method - generates the component parameters (means and covariance matrices)
 func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 	// Numeric Attrs
-	attrs := base.NonClassAttributes(inst)
+	attrs := base.AttributeDifference(inst.AllAttributes(), inst.AllClassAttributes())
 	attrSpecs := base.ResolveAttributes(inst, attrs)
 
 	_, n_obs := inst.Size()
-- 
2.43.0


From 5dc26ec6e876a554944ab1125a44462490976feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 59/89] fix: write negative perceptron predictions to their own
 row

---
 perceptron/average.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index b4d0249..25786e9 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -132,7 +132,7 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		if result > 0.0 {
 			ret.Set(classSpec, i, base.PackU64ToBytes(1))
 		} else {
-			ret.Set(classSpec, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0})
+			ret.Set(classSpec, i, []byte{0, 0, 0, 0, 0, 0, 0, 0})
 		}
 	}
 
-- 
2.43.0


From 469dd37c4c8d54d965ecfb53bb643d1223acd4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 60/89] fix: read perceptron queries in training column order

---
 perceptron/average.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index 25786e9..91da82c 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -104,21 +104,14 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		panic("Cannot call Predict on an untrained AveragePerceptron")
 	}
 
-	data := processData(what)
-
 	allAttrs := base.CheckCompatible(what, p.TrainingData)
 	if allAttrs == nil {
 		// Don't have the same Attributes
 		return nil
 	}
 
-	// Remove the Attributes which aren't numeric
-	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
-		if fAttr, ok := a.(*base.FloatAttribute); ok {
-			allNumericAttrs = append(allNumericAttrs, fAttr)
-		}
-	}
+	// Read the Attributes in the order used for training
+	data := processAttributes(what, base.NonClassFloatAttributes(p.TrainingData))
 
 	ret := base.GeneratePredictionVector(what)
 	classAttr := ret.AllClassAttributes()[0]
@@ -140,12 +133,15 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 }
 
 func processData(x base.FixedDataGrid) instances {
+	// Retrieve numeric non-class Attributes
+	return processAttributes(x, base.NonClassFloatAttributes(x))
+}
+
+func processAttributes(x base.FixedDataGrid, numericAttrs []base.Attribute) instances {
 	_, rows := x.Size()
 
 	result := make(instances, rows)
 
-	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(x)
 	numericAttrSpecs := base.ResolveAttributes(x, numericAttrs)
 
 	// Retrieve class Attributes
-- 
2.43.0


From 92dda17cd60d15f37c8d64a2b598b7705d833651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 61/89] fix: learn perceptron weights from the class labels

---
 perceptron/average.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index 91da82c..862ae5f 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -29,26 +29,22 @@ type instances []instance
 func (p *AveragePerceptron) updateWeights(features []float64, correction float64) {
 
 	for i, _ := range p.weights {
-		fv := &features[i]
-		if fv != nil {
-			update := p.learningRate * correction * *fv
-			p.weights[i] = update
-			p.edges[i]++
-		}
+		update := p.learningRate * correction * features[i]
+		p.weights[i] += update
+		// What this update must not count for in the average,
+		// having come after p.count steps
+		p.edges[i] += p.count * update
 	}
-
-	p.average()
 }
 
+// average replaces the weights by their mean over the steps taken
 func (p *AveragePerceptron) average() {
 
-	for i, fcount := range p.edges {
-		wv := &p.weights[i]
-		if wv != nil {
-			p.weights[i] = (p.count**wv + fcount) / (fcount + 1)
-		}
+	for i, ev := range p.edges {
+		p.weights[i] -= ev / (p.count + 1)
+		p.edges[i] = 0
 	}
-	p.count++
+	p.count = 0
 }
 
 func (p *AveragePerceptron) score(datum instance) float64 {
@@ -72,10 +68,18 @@ func (p *AveragePerceptron) Fit(trainingData base.FixedDataGrid) {
 	learning := true
 
 	data := processData(trainingData)
+
+	// The second value of the class Attribute is the positive one
+	positive := trainingData.AllClassAttributes()[0].GetStringFromSysVal(base.PackU64ToBytes(1))
+
 	for learning {
 		for _, datum := range data {
+			p.count++
 			response := p.score(datum)
-			expected := 0.0
+			expected := -1.0
+			if datum.class == positive {
+				expected = 1.0
+			}
 			correction := expected - response
 
 			if expected != response {
@@ -186,7 +190,13 @@ func NewAveragePerceptron(features int, learningRate float64, startingThreshold
 	weights := make([]float64, features)
 	edges := make([]float64, features)
 
-	p := AveragePerceptron{nil, weights, edges, startingThreshold, learningRate, trainError, 0.0, false, 0}
+	p := AveragePerceptron{
+		weights:      weights,
+		edges:        edges,
+		threshold:    startingThreshold,
+		learningRate: learningRate,
+		trainError:   trainError,
+	}
 
 	return &p
 }
-- 
2.43.0


From d269089920f3bebed5de45e8eb7d4dbc1808a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:00 +0000
Subject: [PATCH 62/89] fix: centre data in PCA without changing the caller's
 matrix

---
 pca/pca.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pca/pca.go b/pca/pca.go
index c6c6837..6a039c0 100644
--- a/pca/pca.go
+++ b/pca/pca.go
@@ -8,6 +8,7 @@ import (
 type PCA struct {
 	Num_components int
 	svd            *mat.SVD
+	mean           *mat.Dense // of the columns of the training data
 }
 
 // Number of components. 0 - by default, use number of features as number of components
@@ -24,8 +25,8 @@ func (pca *PCA) FitTransform(X *mat.Dense) *mat.Dense {
 // Fit PCA model
 func (pca *PCA) Fit(X *mat.Dense) *PCA {
 	// Mean to input data
-	M := mean(X)
-	X = matrixSubVector(X, M)
+	pca.mean = mean(X)
+	X = matrixSubVector(X, pca.mean)
 
 	// Get SVD decomposition from data
 	pca.svd = &mat.SVD{}
@@ -47,6 +48,7 @@ func (pca *PCA) Transform(X *mat.Dense) *mat.Dense {
 	}
 
 	num_samples, num_features := X.Dims()
+	X = matrixSubVector(X, pca.mean)
 
 	vTemp := new(mat.Dense)
 	pca.svd.VTo(vTemp)
@@ -75,18 +77,19 @@ func mean(matrix *mat.Dense) *mat.Dense {
 }
 
 // After computing of mean, compute: X(input matrix)  - X(mean vector)
-func matrixSubVector(mat, vec *mat.Dense) *mat.Dense {
-	rowsm, colsm := mat.Dims()
+func matrixSubVector(matrix, vec *mat.Dense) *mat.Dense {
+	rowsm, colsm := matrix.Dims()
 	_, colsv := vec.Dims()
 	if colsv != colsm {
 		panic("Error in dimension")
 	}
+	ret := mat.NewDense(rowsm, colsm, nil)
 	for i := 0; i < rowsm; i++ {
 		for j := 0; j < colsm; j++ {
-			mat.Set(i, j, (mat.At(i, j) - vec.At(0, j)))
+			ret.Set(i, j, (matrix.At(i, j) - vec.At(0, j)))
 		}
 	}
-	return mat
+	return ret
 }
 
 //Multiplication of X(input data) and V(from SVD)
-- 
2.43.0


From 1a7ce140ef6c174061440c4604d4bce3ed99be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:04 +0000
Subject: [PATCH 63/89] fix: let naive Bayes train on classes without active
 features

---
 naive/bernoulli_nb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 767a90a..d040023 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -251,8 +251,10 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	for c, _ := range nb.classInstances {
 		nb.condProb[c] = make([]float64, nb.features)
 		for feat := 0; feat < nb.features; feat++ {
-			classTerms, _ := docsContainingTerm[c]
-			numDocs := classTerms[feat]
+			numDocs := 0
+			if classTerms, ok := docsContainingTerm[c]; ok {
+				numDocs = classTerms[feat]
+			}
 			docsInClass, _ := nb.classInstances[c]
 
 			classCondProb, _ := nb.condProb[c]
-- 
2.43.0


From 1ff67336b86f0ff45f03b8c805dd87b2fc74b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 64/89] fix: derive the softplus rectifier correctly

---
 neural/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/funcs.go b/neural/funcs.go
index 48bf3db..344f8b7 100644
--- a/neural/funcs.go
+++ b/neural/funcs.go
@@ -22,5 +22,5 @@ var Linear NeuralFunction = NeuralFunction{
 // https://www.wikiwand.com/en/Rectifier_(neural_networks)
 var SoftplusRectifier NeuralFunction = NeuralFunction{
 	func(v float64) float64 { return math.Log(1 + math.Exp(v)) },
-	func(v float64) float64 { return v * (1 - v) },
+	func(v float64) float64 { return 1 - math.Exp(-v) },
 }
-- 
2.43.0


From d18d77068ceabe59f866853c604877f5f139d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 65/89] fix: keep small and changed connections when updating
 weights

---
 neural/network.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural/network.go b/neural/network.go
index 5119133..019ba62 100644
--- a/neural/network.go
+++ b/neural/network.go
@@ -77,6 +77,8 @@ func (n *Network) SetWeight(src, target int, v float64) {
 	src--
 	target--
 	n.weights.Set(target, src, v)
+	// The connections may have changed
+	n.origWeights = nil
 }
 
 // SetBias sets the bias at a given neuron (counted from 1).
@@ -139,7 +141,7 @@ func (n *Network) UpdateWeights(out, err *mat.Dense, learnRate float64) {
 		if target == source {
 			return v
 		}
-		if math.Abs(n.origWeights.At(target, source)) > 0.005 {
+		if n.origWeights.At(target, source) != 0 {
 			return v + learnRate*out.At(source, 0)*err.At(target, 0)
 		}
 		return 0.00
-- 
2.43.0


From d51c2cf5df7edf5e6f09e74c353bd2086179708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:54 +0000
Subject: [PATCH 66/89] fix: predict with the network's own input and output
 nodes

---
 neural/layered.go | 52 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index c1daee9..169b398 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -64,6 +64,24 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	return insts
 }
 
+// findNodes returns the (zero-based) nodes which stand for the given Attributes.
+func (m *MultiLayerNet) findNodes(attrs []base.Attribute) []int {
+	ret := make([]int, len(attrs))
+	for i, a := range attrs {
+		found := false
+		for b, node := range m.attrs {
+			if a.Equals(b) {
+				ret[i] = node
+				found = true
+			}
+		}
+		if !found {
+			panic("Can't resolve the Attribute!")
+		}
+	}
+	return ret
+}
+
 // Predict uses the underlying network to produce predictions for the
 // class variables of X.
 //
@@ -79,7 +97,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 	insts := m.convertToFloatInsts(X)
 
 	// Get the input/output Attributes
-	inputAttrs := base.NonClassAttributes(insts)
+	inputAttrs := base.AttributeDifference(insts.AllAttributes(), insts.AllClassAttributes())
 	outputAttrs := ret.AllClassAttributes()
 
 	// Compute layers
@@ -113,6 +131,13 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 	// Resolve the output Attributespecs
 	outputAs := base.ResolveAttributes(ret, outputAttrs)
 
+	// Find the nodes they correspond to
+	inputNodes := m.findNodes(inputAttrs)
+	var outputNodes []int
+	if floatMode > 0 {
+		outputNodes = m.findNodes(outputAttrs)
+	}
+
 	// Map over each input row
 	insts.MapOverRows(inputAs, func(row [][]byte, rc int) (bool, error) {
 		// Clear the activation vector
@@ -121,21 +146,24 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		// Build the activation vector
 		for i, vb := range row {
-			if cIndex, ok := m.attrs[inputAs[i].GetAttribute()]; !ok {
-				panic("Can't resolve the Attribute!")
-			} else {
-				a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
-			}
+			a.Set(inputNodes[i], 0, base.UnpackBytesToFloat(vb))
 		}
 		// Robots, activate!
 		m.network.Activate(a, layers)
 
 		// Decide which class to set
 		if floatMode > 0 {
-			for _, as := range outputAs {
-				cIndex := m.attrs[as.GetAttribute()]
-				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
+			for i, as := range outputAs {
+				ret.Set(as, rc, base.PackFloatToBytes(a.At(outputNodes[i], 0)))
+			}
+		} else if m.classAttrCount == 1 {
+			// Two-valued, so there's only one node
+			index := 0
+			values := outputAttrs[0].(*base.CategoricalAttribute).GetValues()
+			if a.At(m.classAttrOffset, 0) > 0.5 && len(values) > 1 {
+				index = 1
 			}
+			ret.Set(outputAs[0], rc, base.PackU64ToBytes(uint64(index)))
 		} else {
 			maxIndex := 0
 			maxVal := 0.0
@@ -168,7 +196,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 
 	// The size of the first layer is the number of things
 	// in the revised instances which aren't class Attributes
-	inputAttrsVec := base.NonClassAttributes(insts)
+	inputAttrsVec := base.AttributeDifference(insts.AllAttributes(), insts.AllClassAttributes())
 
 	// The size of the output layer is the number of things
 	// in the revised instances which are class Attributes
@@ -192,12 +220,14 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
 	attrCounter := 0
+	m.attrs = make(map[base.Attribute]int)
 	for i, a := range inputAttrsVec {
 		attrCounter = i
 		m.attrs[a] = attrCounter
 		trainingAttrs[a] = attrCounter
 	}
-	m.classAttrOffset = attrCounter + 1
+	m.classAttrOffset = attrCounter + 1 + hiddenSize
+	m.classAttrCount = 0
 	for _, a := range classAttrsVec {
 		attrCounter++
 		m.attrs[a] = attrCounter + hiddenSize
-- 
2.43.0


From b09771bf27bcff9ca08fd2bbfc8f4ee77186d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 67/89] fix: don't let output errors cancel in the convergence
 test

---
 neural/layered.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 169b398..533d4fd 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -352,7 +352,9 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 			}
 
 			// Update total error
-			totalError += math.Abs(mat.Sum(errVec))
+			for a := range classAttrs {
+				totalError += math.Abs(errVec.At(classAttrs[a], 0))
+			}
 
 			// Back-propagate the error
 			b := m.network.Error(trainVec, errVec, totalLayers)
@@ -366,7 +368,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 			return true, nil
 		})
 
-		totalError /= float64(maxRow)
+		totalError /= float64(maxRow + 1)
 		// If we've converged, no need to carry on
 		if totalError < m.Convergence {
 			break
-- 
2.43.0


From 3d9925359ace71444762a86d164f3a8fbda7b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 68/89] fix: order a network's class nodes like the class
 values

---
 neural/layered.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index 533d4fd..96cd4a2 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -200,7 +200,8 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 
 	// The size of the output layer is the number of things
 	// in the revised instances which are class Attributes
-	classAttrsVec := insts.AllClassAttributes()
+	// (in the order of the values of a categorical class)
+	classAttrsVec := base.AttributeIntersect(insts.AllAttributes(), insts.AllClassAttributes())
 
 	// The total number of layers is input layer + output layer
 	// plus number of layers specified
-- 
2.43.0


From 086ef93f3a1d8ba615e0fada0b5daf04f4ebcb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:42 +0000
Subject: [PATCH 69/89] fix: settle ties between neighbours the same way every
 time

---
 knn/knn.go               | 10 ++++++----
 knn/knn_opt_euclidean.go | 11 ++++++++---
 utilities/utilities.go   |  3 +++
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 4abb26a..0efad58 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -285,10 +285,11 @@ func (KNN *KNNClassifier) vote(maxmap map[string]int, values []int) string {
 		}
 	}
 
-	// Sort the maxMap
+	// Pick the most frequent label, the one with the nearest neighbour on ties
 	var maxClass string
 	maxVal := -1
-	for a := range maxmap {
+	for _, elem := range values {
+		a := base.GetClass(KNN.TrainingData, elem)
 		if maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
@@ -313,10 +314,11 @@ func (KNN *KNNClassifier) weightedVote(maxmap map[string]float64, values []int,
 		}
 	}
 
-	// Sort the maxMap
+	// Pick the heaviest label, the one with the nearest neighbour on ties
 	var maxClass string
 	maxVal := -1.0
-	for a := range maxmap {
+	for _, elem := range values {
+		a := base.GetClass(KNN.TrainingData, elem)
 		if maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index a6b159c..c980e31 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -13,9 +13,14 @@ type dist C.struct_dist
 
 type distanceRecs []C.struct_dist
 
-func (d distanceRecs) Len() int           { return len(d) }
-func (d distanceRecs) Swap(i, j int)      { d[i], d[j] = d[j], d[i] }
-func (d distanceRecs) Less(i, j int) bool { return d[i].dist < d[j].dist }
+func (d distanceRecs) Len() int      { return len(d) }
+func (d distanceRecs) Swap(i, j int) { d[i], d[j] = d[j], d[i] }
+func (d distanceRecs) Less(i, j int) bool {
+	if d[i].dist == d[j].dist {
+		return d[i].p < d[j].p
+	}
+	return d[i].dist < d[j].dist
+}
 
 func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base.FixedDataGrid {
 
diff --git a/utilities/utilities.go b/utilities/utilities.go
index d2a9c35..2d207f5 100644
--- a/utilities/utilities.go
+++ b/utilities/utilities.go
@@ -17,6 +17,9 @@ func (sm *sortedIntMap) Len() int {
 }
 
 func (sm *sortedIntMap) Less(i, j int) bool {
+	if sm.m[sm.s[i]] == sm.m[sm.s[j]] {
+		return sm.s[i] < sm.s[j]
+	}
 	return sm.m[sm.s[i]] < sm.m[sm.s[j]]
 }
 
-- 
2.43.0


From 4dc796aea6c1fc711a08d65dc42363c33807fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:14 +0000
Subject: [PATCH 70/89] fix: resolve naive Bayes class ties the same way every
 time

---
 naive/bernoulli_nb.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index d040023..1c3f50c 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
 	"math"
+	"sort"
 )
 
 // A Bernoulli Naive Bayes Classifier. Naive Bayes classifiers assumes
@@ -289,7 +290,16 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 	bestScore := -math.MaxFloat64
 	bestClass := ""
 
-	for class, classCount := range nb.classInstances {
+	// Go through the classes in a fixed order, so that ties always
+	// resolve in the same way
+	classes := make([]string, 0, len(nb.classInstances))
+	for class := range nb.classInstances {
+		classes = append(classes, class)
+	}
+	sort.Strings(classes)
+
+	for _, class := range classes {
+		classCount := nb.classInstances[class]
 		// Init classScore with log(prior)
 		classScore := math.Log((float64(classCount)) / float64(nb.trainingInstances))
 		for f := 0; f < nb.features; f++ {
-- 
2.43.0


From 5a82687d50f66c4bfa1ec4c1ae8fc4fe8f5157a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 71/89] fix: keep the training grid's row order when pruning

---
 trees/id3.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trees/id3.go b/trees/id3.go
index c03f6e0..b6224d3 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -558,7 +558,9 @@ func NewID3DecisionTreeFromRule(prune float64, rule RuleGenerator) *ID3DecisionT
 // Fit builds the ID3 decision tree
 func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
 	if t.PruneSplit > 0.001 {
-		trainData, testData := base.InstancesTrainTestSplit(on, t.PruneSplit)
+		// Split a view, because splitting shuffles DenseInstances in place
+		view := base.NewInstancesViewFromAttrs(on, on.AllAttributes())
+		trainData, testData := base.InstancesTrainTestSplit(view, t.PruneSplit)
 		t.Root = InferID3Tree(trainData, t.Rule)
 		t.Root.Prune(testData)
 	} else {
-- 
2.43.0


From 1676cfa3016c2819ddd57e318aaf806d621d650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 72/89] fix: add up optimised distances in double precision

---
 knn/knn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.h b/knn/knn.h
index e785b99..99c67b5 100644
--- a/knn/knn.h
+++ b/knn/knn.h
@@ -4,7 +4,7 @@
 #include <stdint.h>
 
 struct dist {
-    float dist;
+    double dist;
     uint32_t p;
 };
 
-- 
2.43.0


From 1bfdf374e108106413334fa2710052ffd19b785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:45 +0000
Subject: [PATCH 73/89] fix: restore a saved forest's size and features

---
 ensemble/randomforest.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 0d9492a..a1dfc1a 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -95,6 +95,18 @@ func (f *RandomForest) Load(filePath string) error {
 }
 
 func (f *RandomForest) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
+	// The saved forest decides on the number of trees and features
+	size, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+	features, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_RANDOM_FEATURES"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_RANDOM_FEATURES", err)
+	}
+	f.ForestSize = int(size)
+	f.Features = int(features)
+
 	f.Model = new(meta.BaggedModel)
 	for i := 0; i < f.ForestSize; i++ {
 		tree := trees.NewID3DecisionTree(0.00)
-- 
2.43.0


From ac136360bb00ec8ae9101104e552ebe33313e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 74/89] fix: remove the temporary files of linear SVC models

---
 linear_models/linearsvc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 6166198..878f790 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -266,6 +266,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	err = Export(lr.model, f.Name())
@@ -315,8 +316,12 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	}
 
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
+	if err != nil {
+		return base.DescribeError("Unable to create a temporary file", err)
+	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	f.WriteAt(modelBytes, 0)
-- 
2.43.0


From d426416fda735c3fc0775935c382afa67ccc2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:31 +0000
Subject: [PATCH 75/89] fix: restore the training parameters of a loaded linear
 SVC

---
 linear_models/linearsvc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 878f790..c92f561 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -332,6 +332,7 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	if err != nil {
 		return base.DescribeError("Unable to reload the model", err)
 	}
+	lr.param = lr.Param.convertToNativeFormat()
 	return nil
 }
 
-- 
2.43.0


From 650b2f694dcc94306a67e4f106eb5350e74eab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:04 +0000
Subject: [PATCH 76/89] fix: refuse a bagged model with another number of
 members

---
 meta/bagging.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/meta/bagging.go b/meta/bagging.go
index 98f5258..1491002 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -296,6 +296,15 @@ func (b *BaggedModel) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 
 	b.RandomFeatures = int(randomFeatures)
 
+	// Check that every saved classifier has a place to go to
+	classifiers, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+	if classifiers != uint64(len(b.Models)) {
+		return fmt.Errorf("Can't load %d saved classifier(s) into %d model(s)", classifiers, len(b.Models))
+	}
+
 	// Reload the classifiers
 	for i, m := range b.Models {
 		clsPrefix := fmt.Sprintf("%s/", pI("CLASSIFIERS", i))
-- 
2.43.0


From fbc86a59b708405cc7f1c8bf699f0a7354e2e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:09 +0000
Subject: [PATCH 77/89] fix: keep the columns of the printed matrix and summary
 apart

---
 evaluation/confusion.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index dfcf498..c82db43 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -188,7 +188,7 @@ func GetMacroRecall(c ConfusionMatrix) float64 {
 func GetSummary(c ConfusionMatrix) string {
 	var buffer bytes.Buffer
 	w := new(tabwriter.Writer)
-	w.Init(&buffer, 0, 8, 0, '\t', 0)
+	w.Init(&buffer, 0, 8, 1, '\t', 0)
 
 	fmt.Fprintln(w, "Reference Class\tTrue Positives\tFalse Positives\tTrue Negatives\tPrecision\tRecall\tF1 Score")
 	fmt.Fprintln(w, "---------------\t--------------\t---------------\t--------------\t---------\t------\t--------")
@@ -213,7 +213,7 @@ func GetSummary(c ConfusionMatrix) string {
 func ShowConfusionMatrix(c ConfusionMatrix) string {
 	var buffer bytes.Buffer
 	w := new(tabwriter.Writer)
-	w.Init(&buffer, 0, 8, 0, '\t', 0)
+	w.Init(&buffer, 0, 8, 1, '\t', 0)
 
 	ref := make([]string, 0)
 	fmt.Fprintf(w, "Reference Class\t")
-- 
2.43.0


From 2e9966726cc1989c169fd3da39925ba22ce6ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 78/89] fix: print the predicted-only classes of a confusion
 matrix

---
 evaluation/confusion.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index c82db43..52a0835 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -221,10 +221,22 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 		fmt.Fprintf(w, "%s\t", k)
 		ref = append(ref, k)
 	}
+	// Classes can be predicted without being in the reference
+	gen := append([]string{}, ref...)
+	seen := make(map[string]bool)
+	for _, k := range ref {
+		for l := range c[k] {
+			if _, ok := c[l]; !ok && !seen[l] {
+				seen[l] = true
+				fmt.Fprintf(w, "%s\t", l)
+				gen = append(gen, l)
+			}
+		}
+	}
 	fmt.Fprintf(w, "\n")
 
 	fmt.Fprintf(w, "---------------\t")
-	for _, v := range ref {
+	for _, v := range gen {
 		for t := 0; t < len(v); t++ {
 			fmt.Fprintf(w, "-")
 		}
@@ -234,7 +246,7 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 
 	for _, v := range ref {
 		fmt.Fprintf(w, "%s\t", v)
-		for _, v2 := range ref {
+		for _, v2 := range gen {
 			fmt.Fprintf(w, "%d\t", c[v][v2])
 		}
 		fmt.Fprintf(w, "\n")
-- 
2.43.0


From 5517959884dd3c07e24f113653ad9a187ffddec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 79/89] fix: divide neighbouring numbers where a decision tree
 says it does

---
 trees/entropy.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index 66e5148..f9ff276 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -133,15 +133,23 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 
 	// Consider each possible function
 	for i := 0; i < len(refs)-1; {
+		if refs[i].val == refs[i+1].val {
+			i++
+			continue
+		}
 		val := refs[i].val + refs[i+1].val
 		val /= 2
+		if val == refs[i+1].val {
+			// Neighbouring numbers, so rows must be told apart by the smaller
+			val = refs[i].val
+		}
 		if val == prevVal {
 			i++
 			continue
 		}
 		// refs is sorted, so we only need to update values that are
-		// bigger than prevVal, but are lower than val
-		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
+		// bigger than prevVal, but are no bigger than val
+		for j := prevInd; j < len(refs) && refs[j].val <= val; j++ {
 			splitDist[0][refs[j].class]++
 			splitDist[1][refs[j].class]--
 			prevInd++
-- 
2.43.0


From b4d175a6480cea098fe9092d26a0423c2b13b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:13 +0000
Subject: [PATCH 80/89] fix: divide neighbouring numbers in CART trees

---
 trees/cart_classifier.go | 4 ++++
 trees/cart_regressor.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index 733d1eb..f9fdedd 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -240,6 +240,10 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 		for j := 0; j < len(unique)-1; j++ {
 
 			threshold := (unique[j] + unique[j+1]) / 2
+			if threshold == unique[j] {
+				// Neighbouring numbers, so rows must be told apart by the larger
+				threshold = unique[j+1]
+			}
 			// Ensure that same split has not been made before
 			if validate(tree.triedSplits, int64(i), threshold) {
 				// We need to split data from fresh when considering new feature for the first time.
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 49ba4df..85a3dae 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -224,6 +224,10 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 
 		for j := 0; j < len(unique)-1; j++ {
 			threshold := (unique[j] + unique[j+1]) / 2
+			if threshold == unique[j] {
+				// Neighbouring numbers, so rows must be told apart by the larger
+				threshold = unique[j+1]
+			}
 			if validate(tree.triedSplits, int64(i), threshold) {
 				if firstTime {
 					left, right, leftY, rightY = regressorCreateSplit(sortData, int64(i), sortY, threshold)
-- 
2.43.0


From eef37b96b34f49bd6f1936657bc8ce029a00acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:00 +0000
Subject: [PATCH 81/89] fix: divide the rows of isolation trees whatever their
 spread

---
 trees/isolation.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/trees/isolation.go b/trees/isolation.go
index 3f83c90..d24d607 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -41,10 +41,9 @@ func minMax(feature int64, data [][]float64) (float64, float64) {
 // Select a random threshold between the minimum and maximum of the feature.
 func selectValue(min, max float64) float64 {
 	val := min + (rand.Float64() * (max - min))
-	if val == min {
-		val += 0.000001
-	} else if val == max {
-		val -= 0.000001
+	if val >= max {
+		// Values up to the threshold go to the left, so the maximum divides nothing
+		val = min
 	}
 	return val
 }
-- 
2.43.0


From 077fb32850a6be958891032eaf068a3521523dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:11 +0000
Subject: [PATCH 82/89] fix: predict a class when every output of a network is
 zero

---
 neural/layered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index 96cd4a2..edbccec 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -165,7 +165,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 			}
 			ret.Set(outputAs[0], rc, base.PackU64ToBytes(uint64(index)))
 		} else {
-			maxIndex := 0
+			maxIndex := m.classAttrOffset
 			maxVal := 0.0
 			for i := m.classAttrOffset; i < m.classAttrOffset+m.classAttrCount; i++ {
 				val := a.At(i, 0)
-- 
2.43.0


From f84bb35e471040add4cd24ed6c955d41bbd79f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:06 +0000
Subject: [PATCH 83/89] fix: Refuse archives whose dimensions are not those of
 their sections

---
 base/serialize_instances.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 0a91fb3..48c3ed6 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -123,6 +123,14 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		return nil, DescribeError("Unable to deserialize normal attributes", err)
 	}
 
+	// The dimensions must be those of the other sections
+	if attrCount != len(normalAttrs)+len(cAttrs) {
+		return nil, WrapError(fmt.Errorf("DIMS: expected %d attributes, got %d", attrCount, len(normalAttrs)+len(cAttrs)))
+	}
+	if rowCount < 0 {
+		return nil, WrapError(fmt.Errorf("DIMS: invalid number of rows"))
+	}
+
 	// Create the return instances
 	ret = NewDenseInstances()
 
@@ -140,12 +148,6 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		}
 		allAttributes[i+len(normalAttrs)] = v
 	}
-	// Allocate memory
-	err = ret.Extend(int(rowCount))
-	if err != nil {
-		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
-	}
-
 	// Seek through the TAR file until we get to the DATA section
 	reader := tr.Regenerate()
 	for {
@@ -156,10 +158,20 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 			return nil, WrapError(fmt.Errorf("Error seeking to DATA section: %s", err))
 		}
 		if hdr.Name == p("DATA") {
+			// Every row takes at least a byte per Attribute
+			if attrCount > 0 && int64(rowCount) > hdr.Size {
+				return nil, WrapError(fmt.Errorf("DATA: too short for %d rows", rowCount))
+			}
 			break
 		}
 	}
 
+	// Allocate memory
+	err = ret.Extend(int(rowCount))
+	if err != nil {
+		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
+	}
+
 	// Resolve AttributeSpecs
 	specs := ResolveAttributes(ret, allAttributes)
 
@@ -181,6 +193,11 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		}
 	}
 
+	// Nothing may be left
+	if n, _ := io.ReadFull(reader, make([]byte, 1)); n != 0 {
+		return nil, WrapError(fmt.Errorf("DATA: longer than %d rows", rowCount))
+	}
+
 	return ret, nil
 }
 
-- 
2.43.0


From 0e1c5e7460f99793d6c8fe37cff95f8cca472627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:19 +0000
Subject: [PATCH 84/89] fix: Name saved forests, random trees and Bayes
 classifiers after themselves

---
 ensemble/randomforest.go | 2 +-
 naive/bernoulli_nb.go    | 2 +-
 trees/random.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index a1dfc1a..b2cfddc 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -65,7 +65,7 @@ func (f *RandomForest) String() string {
 func (f *RandomForest) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "RandomForest",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 1c3f50c..131409f 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -64,7 +64,7 @@ func (nb *BernoulliNBClassifier) String() string {
 func (nb *BernoulliNBClassifier) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "BernoulliNB",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
diff --git a/trees/random.go b/trees/random.go
index 6760433..aa1cfe4 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -125,7 +125,7 @@ func (rt *RandomTree) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 func (rt *RandomTree) GetMetadata() base.ClassifierMetadataV1 {
 	return base.ClassifierMetadataV1{
 		FormatVersion:      1,
-		ClassifierName:     "KNN",
+		ClassifierName:     "RandomTree",
 		ClassifierVersion:  "1.0",
 		ClassifierMetadata: nil,
 	}
-- 
2.43.0


From 2ab56e46dbc65a391546d6166c843159a28f11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:37 +0000
Subject: [PATCH 85/89] fix: Replace a decision tree node when loading another
 one into it

---
 trees/id3.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index b6224d3..f7b077a 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -171,6 +171,8 @@ func (d *DecisionTreeNode) LoadWithPrefix(reader *base.ClassifierDeserializer, p
 		return err
 	}
 
+	// Nothing may remain of a tree which was here before
+	*d = DecisionTreeNode{}
 	err = json.Unmarshal(b, d)
 	if err != nil {
 		return err
-- 
2.43.0


From a35a6170ed2a44a8318ede0861865e4cb1199054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:01 +0000
Subject: [PATCH 86/89] fix: Estimate the precision of every number in a line

---
 base/csv.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/csv.go b/base/csv.go
index 6978311..3aea2d8 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"bufio"
 	"encoding/csv"
 	"fmt"
 	"io"
@@ -31,13 +30,13 @@ func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
 // digits occuring anywhere after the decimal point within the reader.
 func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	// Creat a basic regexp
-	rexp := regexp.MustCompile("[0-9]+(.[0-9]+)?")
+	rexp := regexp.MustCompile("[0-9]*\\.[0-9]+")
 
 	// Scan through the file line-by-line
 	maxL := 0
 
 	r.Seek(0, 0)
-	scanner := bufio.NewScanner(r)
+	scanner := newLineScanner(r)
 	lineCount := 0
 	for scanner.Scan() {
 		if lineCount > 5 {
-- 
2.43.0


From 65086ea80faeffb4568de4beb58a305d479d9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:47 +0000
Subject: [PATCH 87/89] fix: Report errors of writing ARFF

---
 base/arff.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 7c3a8d5..42c47d6 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -50,8 +50,11 @@ func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []
 }
 
 func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
+	// Keeps the first error of any of these writes
+	buffered := bufio.NewWriter(w)
+
 	// Write @relation header
-	fmt.Fprintf(w, "@relation %s\n\n", relation)
+	fmt.Fprintf(buffered, "@relation %s\n\n", relation)
 
 	// Get all Attribute specifications
 	attrs := ResolveAttributes(inst, rawAttrs)
@@ -64,21 +67,21 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 			vals := a.GetValues()
 			t = fmt.Sprintf("{%s}", strings.Join(vals, ", "))
 		}
-		fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t)
+		fmt.Fprintf(buffered, "@attribute %s %s\n", attr.GetName(), t)
 	}
-	fmt.Fprint(w, "\n@data\n")
+	fmt.Fprint(buffered, "\n@data\n")
 
 	buf := make([]string, len(attrs))
 	inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
-		fmt.Fprint(w, strings.Join(buf, ","))
-		fmt.Fprint(w, "\n")
+		fmt.Fprint(buffered, strings.Join(buf, ","))
+		fmt.Fprint(buffered, "\n")
 		return true, nil
 	})
 
-	return nil
+	return buffered.Flush()
 }
 
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
-- 
2.43.0


From 41a6fe68d3eb55a26f9dc13efb6654fcf29755f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:58 +0000
Subject: [PATCH 88/89] fix: Report errors of reading ARFF

---
 base/arff.go | 4 ++--
 base/csv.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 42c47d6..e6547dc 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -115,7 +115,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			}
 		}
 	}
-	return count, nil
+	return count, scanner.Err()
 }
 
 // ParseARFFGetAttributes returns the set of Attributes represented in this ARFF
@@ -241,7 +241,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 // ParseDenseARFFToInstances parses the dense ARFF File into a FixedDataGrid
diff --git a/base/csv.go b/base/csv.go
index 3aea2d8..8a9c811 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -64,7 +64,7 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 		}
 		lineCount++
 	}
-	return maxL, nil
+	return maxL, scanner.Err()
 }
 
 // ParseCSVGetAttributesFromReader returns an ordered slice of appropriate-ly typed
-- 
2.43.0


From 73d83f9d3a58f7c97a785edbdff7d2e0b5af856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:18 +0000
Subject: [PATCH 89/89] fix: Report errors of finishing a saved model

---
 ensemble/multisvc.go       |  4 ++--
 ensemble/randomforest.go   |  7 +++++--
 linear_models/linearsvc.go | 12 +++++++-----
 meta/bagging.go            |  7 +++++--
 naive/bernoulli_nb.go      |  7 +++++--
 trees/id3.go               |  1 +
 trees/random.go            |  8 +++++---
 7 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 2f29780..61c52b7 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -99,10 +99,10 @@ func (m *MultiLinearSVC) Save(filePath string) error {
 	}
 	err = m.SaveWithPrefix(serializer, "")
 	if err != nil {
+		serializer.Close()
 		return fmt.Errorf("Unable to Save(): %v", err)
 	}
-	serializer.Close()
-	return err
+	return serializer.Close()
 }
 
 func (m *MultiLinearSVC) SaveWithPrefix(serializer *base.ClassifierSerializer, prefix string) error {
diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index b2cfddc..5252afe 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -78,8 +78,11 @@ func (f *RandomForest) Save(filePath string) error {
 	}
 
 	err = f.SaveWithPrefix(writer, "model")
-	writer.Close()
-	return err
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (f *RandomForest) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index c92f561..01083ca 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -241,11 +241,13 @@ func (lr *LinearSVC) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
 	fmt.Printf("writer: %v", writer)
-	return lr.SaveWithPrefix(writer, "")
+	err = lr.SaveWithPrefix(writer, "")
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -284,7 +286,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model parameters", err)
 	}
-	writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
+	err = writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
diff --git a/meta/bagging.go b/meta/bagging.go
index 1491002..48e18ae 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -197,8 +197,11 @@ func (b *BaggedModel) Save(filePath string) error {
 		return err
 	}
 	err = b.SaveWithPrefix(writer, "")
-	writer.Close()
-	return err
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (b *BaggedModel) Load(filePath string) error {
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 131409f..3b80a21 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -76,8 +76,11 @@ func (nb *BernoulliNBClassifier) Save(filePath string) error {
 		return err
 	}
 	err = nb.SaveWithPrefix(writer, "")
-	writer.Close()
-	return err
+	if err != nil {
+		writer.Close()
+		return err
+	}
+	return writer.Close()
 }
 
 func (nb *BernoulliNBClassifier) Load(filePath string) error {
diff --git a/trees/id3.go b/trees/id3.go
index f7b077a..8aea5de 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -129,6 +129,7 @@ func (d *DecisionTreeNode) Save(filePath string) error {
 	}
 	err = d.SaveWithPrefix(serializer, "")
 	if err != nil {
+		serializer.Close()
 		return err
 	}
 	return serializer.Close()
diff --git a/trees/random.go b/trees/random.go
index aa1cfe4..9a042db 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -95,10 +95,12 @@ func (rt *RandomTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
+	err = rt.SaveWithPrefix(writer, "")
+	if err != nil {
 		writer.Close()
-	}()
-	return rt.SaveWithPrefix(writer, "")
+		return err
+	}
+	return writer.Close()
 }
 
 // SaveWithPrefix outputs this model to a file with a prefix.
-- 
2.43.0

