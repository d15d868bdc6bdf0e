From 1055cd1f69ba7cd30fba3f60ebc04f4f86891311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 01/27] fix: read object array elements with the identifier
 size of the dump

---
 internal/java/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..fe71010 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,7 +11,6 @@ package java
 
 import (
 	"bytes"
-	"encoding/binary"
 	"fmt"
 	"io"
 
@@ -229,8 +228,11 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
-		elements = append(elements, core.Identifier(id))
+		id, err := core.NewPrimitiveParser(bytes.NewReader(e), h.parsedAccessor.IdentifierSize).ParseIdentifier()
+		if err != nil {
+			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
+		}
+		elements = append(elements, id)
 	}
 	return ObjectArray{
 		ArrayClassId: header.ArrayClassId,
-- 
2.43.0


From 444a54a1befdba91031941e6d7de3fbb7dc92700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 02/27] fix: show properties that share hash bin with other
 properties

---
 internal/summary/summary.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..85aa7f1 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -16,6 +16,7 @@ import (
 const (
 	javaLangSystemClassName          = "java/lang/System"
 	managementFactoryHelperClassName = "sun/management/ManagementFactoryHelper"
+	treeBinClassName                 = "java/util/concurrent/ConcurrentHashMap$TreeBin"
 )
 
 type Properties = map[string]string
@@ -136,12 +137,35 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 		return nil, err
 	}
 	resultProps := make(map[string]string)
+	visited := make(map[core.Identifier]bool)
 	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
+		// every bin of the table is the list of nodes
+		for nodeObjectId != 0 {
+			if visited[nodeObjectId] {
+				return nil, fmt.Errorf("malformed properties, node %v is met twice", nodeObjectId)
+			}
+			visited[nodeObjectId] = true
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
 				return nil, err
 			}
+			nextFieldName := "next"
+			if node.Class.Name == treeBinClassName {
+				// the bin is the tree, TreeBin has no key and value,
+				// but it knows the first node of the list
+				nextFieldName = "first"
+			}
+			next, err := node.GetFieldValueByName(nextFieldName)
+			if err != nil {
+				return nil, err
+			}
+			nodeObjectId, err = next.Value.ToObject()
+			if err != nil {
+				return nil, err
+			}
+			if node.Class.Name == treeBinClassName {
+				continue
+			}
 			key, err := node.GetFieldValueByName("key")
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 377135d7d64f48c319a24964094d21abe12a5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 03/27] fix: do not misread GC roots of other kinds and refuse
 unknown sub-records

---
 internal/core/tags.go       |  8 ++++++++
 internal/dump/parser.go     | 18 ++++++++++++++++++
 internal/storage/small.go   |  5 +++++
 internal/summary/summary.go |  2 +-
 4 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/internal/core/tags.go b/internal/core/tags.go
index f94332f..aa12355 100644
--- a/internal/core/tags.go
+++ b/internal/core/tags.go
@@ -36,12 +36,16 @@ const (
 	HprofGcRootJniGlobalType   SubRecordType = 0x01
 	HprofGcRootJniLocalType    SubRecordType = 0x02
 	HprofGcRootJavaFrameType   SubRecordType = 0x03
+	HprofGcRootNativeStackType SubRecordType = 0x04
 	HprofGcRootStickyClassType SubRecordType = 0x05
+	HprofGcRootThreadBlockType SubRecordType = 0x06
+	HprofGcRootMonitorUsedType SubRecordType = 0x07
 	HprofGcRootThreadObjType   SubRecordType = 0x08
 	HprofGcClassDumpType       SubRecordType = 0x20
 	HprofGcInstanceDumpType    SubRecordType = 0x21
 	HprofGcObjArrayDumpType    SubRecordType = 0x22
 	HprofGcPrimArrayDumpType   SubRecordType = 0x23
+	HprofGcRootUnknownType     SubRecordType = 0xff
 )
 
 // these duplicated tags from Tags to be able to exit parse subrecords loop.
@@ -60,6 +64,10 @@ var subRecordTypeMap = map[SubRecordType]string{
 	HprofGcInstanceDumpType:    "HPROF_GC_INSTANCE_DUMP",
 	HprofGcObjArrayDumpType:    "HPROF_GC_OBJ_ARRAY_DUMP",
 	HprofGcPrimArrayDumpType:   "HPROF_GC_PRIM_ARRAY_DUMP",
+	HprofGcRootNativeStackType: "HPROF_GC_ROOT_NATIVE_STACK",
+	HprofGcRootThreadBlockType: "HPROF_GC_ROOT_THREAD_BLOCK",
+	HprofGcRootMonitorUsedType: "HPROF_GC_ROOT_MONITOR_USED",
+	HprofGcRootUnknownType:     "HPROF_GC_ROOT_UNKNOWN",
 }
 
 func (s SubRecordType) String() string {
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..807b110 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -159,6 +159,22 @@ func (parser *Parser) ParseHeapDump() error {
 					}
 					parser.smallRecordsWriteStorage.PutHprofGcRootThreadObj(record)
 					parser.pos += size.Of(record)
+				case core.HprofGcRootNativeStackType, core.HprofGcRootThreadBlockType:
+					// object id and thread serial number
+					rootSize := size.OfType(core.Object) + size.OfType(core.Int)
+					if err := skip(rootSize, bufferedHeapDump); err != nil {
+						return fmt.Errorf("error discarding %v: %w", subRecordHeader.SubRecordType, err)
+					}
+					parser.smallRecordsWriteStorage.CountOtherGcRoot()
+					parser.pos += rootSize
+				case core.HprofGcRootMonitorUsedType, core.HprofGcRootUnknownType:
+					// object id
+					rootSize := size.OfType(core.Object)
+					if err := skip(rootSize, bufferedHeapDump); err != nil {
+						return fmt.Errorf("error discarding %v: %w", subRecordHeader.SubRecordType, err)
+					}
+					parser.smallRecordsWriteStorage.CountOtherGcRoot()
+					parser.pos += rootSize
 				case core.HprofGcClassDumpType:
 					record, err := recordParser.ParseHprofGcClassDump()
 					if err != nil {
@@ -220,6 +236,8 @@ func (parser *Parser) ParseHeapDump() error {
 					}
 					parser.pos--
 					break loop
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
 				}
 			}
 		case core.HprofHeapDumpEndTag:
diff --git a/internal/storage/small.go b/internal/storage/small.go
index 06fd701..c54bf79 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -26,6 +26,7 @@ type underlyingStorage struct {
 	HprofGcRootStickyClass []core.HprofGcRootStickyClass
 	HprofGcRootThreadObj   []core.HprofGcRootThreadObj
 	HprofGcClassDump       map[core.Identifier]core.HprofGcClassDump
+	OtherGcRootsCount      int // GC roots of all other kinds, they are only counted
 }
 
 type SmallRecordsWriteStorage struct {
@@ -112,6 +113,10 @@ func (s *SmallRecordsWriteStorage) PutHprofGcRootThreadObj(record core.HprofGcRo
 	s.HprofGcRootThreadObj = append(s.HprofGcRootThreadObj, record)
 }
 
+func (s *SmallRecordsWriteStorage) CountOtherGcRoot() {
+	s.OtherGcRootsCount++
+}
+
 func (s *SmallRecordsWriteStorage) PutHprofGcClassDump(record core.HprofGcClassDump) {
 	s.HprofGcClassDump[record.ClassObjectId] = record
 }
diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index 85aa7f1..26ba569 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -206,7 +206,7 @@ func getHeap(parsedAccessor *dump.ParsedAccessor) (HeapProperties, error) {
 	classes := parsedAccessor.ListHprofLoadClass()
 	gcRootsCount := len(parsedAccessor.HprofGcRootJavaFrame) + len(parsedAccessor.HprofGcRootJniGlobal) +
 		len(parsedAccessor.HprofGcRootJniLocal) + len(parsedAccessor.ListHprofGcRootStickyClass()) +
-		len(parsedAccessor.ListHprofGcRootThreadObj())
+		len(parsedAccessor.ListHprofGcRootThreadObj()) + parsedAccessor.OtherGcRootsCount
 	classSet := make(map[core.Identifier]any)
 	var void any
 	for _, c := range classes {
-- 
2.43.0


From 554290941f4203833d921d3b4eb4e17fab7fd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 04/27] fix: refuse dumps with unsupported identifier size

---
 internal/dump/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 807b110..2e65c78 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -67,6 +67,9 @@ func (parser *Parser) ParseHeapDump() error {
 	if fileHeader.Header != core.ValidProfileVersion {
 		return fmt.Errorf("unsupported profile version %v, only %v supported", fileHeader.Header, core.ValidProfileVersion)
 	}
+	if fileHeader.IdentifierSize != 4 && fileHeader.IdentifierSize != 8 {
+		return fmt.Errorf("unsupported identifier size %v, only [4, 8] are supported", fileHeader.IdentifierSize)
+	}
 	parser.smallRecordsWriteStorage.PutIdSize(fileHeader.IdentifierSize)
 	parser.smallRecordsWriteStorage.PutTimestamp(fileHeader.Timestamp)
 
-- 
2.43.0


From f1869f6c3d8a9e14ad0c1d812b4a478175572080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 05/27] fix: end heap segment where its length says, any record
 may follow

---
 internal/dump/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 2e65c78..d4b1339 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -119,8 +119,12 @@ func (parser *Parser) ParseHeapDump() error {
 			parser.smallRecordsWriteStorage.PutHprofTrace(record)
 			parser.pos += int(header.Remaining)
 		case core.HprofHeapDumpSegmentTag:
+			segmentEnd := parser.pos + int(header.Remaining)
 		loop:
 			for {
+				if header.Remaining > 0 && parser.pos == segmentEnd {
+					break loop
+				}
 				subRecordHeader, err := recordParser.ParseSubRecordHeader()
 				if err != nil {
 					return fmt.Errorf("error parsing sub-record type: %w", err)
-- 
2.43.0


From d125c086b624daa35e156241a88532cc0e1accb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 06/27] fix: report failure to write the last batch of index
 records

---
 internal/dump/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index d4b1339..00ed9e3 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -78,7 +78,12 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	defer func() {
+		// the last batches are written on close
+		if closeErr := parser.bigRecordsWriteStorage.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("indexing error: %w", closeErr)
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From 7a765fd8481765a7d3b797dbb6fce6d6867091d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 07/27] fix: data race between the parser and the progress bar

---
 internal/dump/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 00ed9e3..0b2eab5 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -19,6 +19,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"sync/atomic"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/storage"
@@ -27,6 +28,7 @@ import (
 // Parser traverses .hprof file and saves parsed information to storages.
 type Parser struct {
 	pos                      int
+	progress                 atomic.Int64 // pos for the observers in other goroutines
 	heapDump                 io.Reader
 	smallRecordsWriteStorage *storage.SmallRecordsWriteStorage
 	bigRecordsWriteStorage   *storage.BigRecordsWriteStorage
@@ -53,7 +55,7 @@ func NewParser(
 // progress bar since parsing large heap dumps
 // can be time consuming.
 func (creator *Parser) GetPosition() int {
-	return creator.pos
+	return int(creator.progress.Load())
 }
 
 // ParseHeapDump parses heap dump to storages.
@@ -85,7 +87,10 @@ func (parser *Parser) ParseHeapDump() (err error) {
 		}
 	}()
 
+	defer parser.reportProgress()
+
 	for {
+		parser.reportProgress()
 		header, err := recordParser.ParseRecordHeader()
 		parser.pos += 9
 		if err != nil {
@@ -130,6 +135,7 @@ func (parser *Parser) ParseHeapDump() (err error) {
 				if header.Remaining > 0 && parser.pos == segmentEnd {
 					break loop
 				}
+				parser.reportProgress()
 				subRecordHeader, err := recordParser.ParseSubRecordHeader()
 				if err != nil {
 					return fmt.Errorf("error parsing sub-record type: %w", err)
@@ -260,6 +266,11 @@ func (parser *Parser) ParseHeapDump() (err error) {
 	}
 }
 
+// reportProgress makes the current position visible via GetPosition
+func (parser *Parser) reportProgress() {
+	parser.progress.Store(int64(parser.pos))
+}
+
 // skip calls underlying bufio.Reader.Discard
 func skip(n int, bufReader *bufio.Reader) error {
 	_, err := bufReader.Discard(n)
-- 
2.43.0


From 7401a93a10cb36b9c9292d2002aab7ada126b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 08/27] fix: panic of the progress bar on empty and short files

---
 internal/cmd/interactive_print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..6186934 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -37,7 +37,11 @@ func clearLine() {
 
 func progressBar(max int, positionFn func() int, label string) func() string {
 	return func() string {
-		progress := 100 * float64(positionFn()) / float64(max)
+		progress := 100.0
+		// the file may be empty, or be changed while it is being parsed
+		if position := positionFn(); position < max {
+			progress = 100 * float64(position) / float64(max)
+		}
 		blocksNumber := int(progress / 2)
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
-- 
2.43.0


From 1ee63b03bd2de5f757f7812573e5e5dc90130487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 09/27] fix: division by zero when all objects have zero size

---
 internal/output/objects.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..d8b3e44 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -110,11 +110,17 @@ func getPrintItems(o objects.Objects) printObject {
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
 		})
 	}
+	percent := func(part, total int) int {
+		if total == 0 {
+			return 0
+		}
+		return 100 * part / total
+	}
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
-- 
2.43.0


From 8d6b2126220fd68be991000383967d87ff0192b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 10/27] fix: stable order of objects with equal count or size

---
 internal/output/objects.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index d8b3e44..9840362 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -88,6 +88,16 @@ func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColo
 func getPrintItems(o objects.Objects) printObject {
 	var printObj printObject
 	var printItems []printItem
+	// less orders items that are equal by the sorted column
+	less := func(a, b objects.ObjectItem) bool {
+		if nameA, nameB := format.ClassName(a.Name), format.ClassName(b.Name); nameA != nameB {
+			return nameA < nameB
+		}
+		if a.InstancesCount != b.InstancesCount {
+			return a.InstancesCount > b.InstancesCount
+		}
+		return a.TotalSize > b.TotalSize
+	}
 	switch o.SortBy {
 	case objects.Size:
 		printObj = printObject{
@@ -95,7 +105,7 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].TotalSize == o.Items[j].TotalSize {
-				return o.Items[i].Name < o.Items[j].Name
+				return less(o.Items[i], o.Items[j])
 			}
 			return o.Items[i].TotalSize > o.Items[j].TotalSize
 		})
@@ -105,7 +115,7 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].InstancesCount == o.Items[j].InstancesCount {
-				return o.Items[i].Name < o.Items[j].Name
+				return less(o.Items[i], o.Items[j])
 			}
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
 		})
-- 
2.43.0


From 24d9bc7c828432e72538fc644d22013c2f415d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 11/27] fix: refuse unknown types of fields and elements
 instead of panicking

---
 internal/core/base_parsers.go | 6 ++++++
 internal/core/types.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..14ef6b3 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -428,6 +428,9 @@ func (parser *RecordParser) parseHprofGcClassDumpInstanceFieldsRecord() (HprofGc
 	if err != nil {
 		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: %w", err)
 	}
+	if !ty.IsKnown() {
+		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: unexpected Java type: %v", byte(ty))
+	}
 	return HprofGcClassDumpInstanceFieldsRecord{
 		InstanceFieldName: instanceFieldName,
 		Ty:                ty,
@@ -516,6 +519,9 @@ func (parser *RecordParser) ParseHprofGcPrimArrayDumpHeader() (HprofGcPrimArrayD
 	if err != nil {
 		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: %w", err)
 	}
+	if !elementType.IsKnown() {
+		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: unexpected Java type: %v", byte(elementType))
+	}
 	return HprofGcPrimArrayDumpHeader{
 		ArrayObjectId:          arrayObjectId,
 		StackTraceSerialNumber: stackTraceSerialNumber,
diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..c4600cf 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,12 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+// IsKnown tells if j is one of the types defined by the HPROF format.
+func (j JavaType) IsKnown() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
-- 
2.43.0


From b33457e8e49fbd78324f3213c0d0072b9cfb4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 12/27] fix: endless recursion when class is superclass of
 itself

---
 internal/java/heap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index fe71010..c23d89b 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -101,6 +101,16 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
+	return h.parseClass(classId, make(map[core.Identifier]bool))
+}
+
+// parseClass does the job of ParseClass, subclasses are the identifiers
+// of the classes that have led to the given one.
+func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifier]bool) (Class, error) {
+	if subclasses[classId] {
+		return Class{}, fmt.Errorf("class with id %v is superclass of itself", classId)
+	}
+	subclasses[classId] = true
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
 		return Class{}, fmt.Errorf("error reading class with id %v", classId)
@@ -145,7 +155,7 @@ func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
 		superClass = nil
 	} else {
 		// TODO not stack safe, fix
-		sc, err := h.ParseClass(class.SuperclassObjectId)
+		sc, err := h.parseClass(class.SuperclassObjectId, subclasses)
 		if err != nil {
 			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
 		}
-- 
2.43.0


From 0833f59aa6bc8b46bb3d968321fd9d875fc704cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 13/27] fix: do not allocate memory for strings that the dump
 does not contain

---
 internal/core/base_parsers.go      |  6 ++++--
 internal/core/primitive_parsers.go | 13 +++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 14ef6b3..2ca6d7b 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,8 +45,10 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
-	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
-	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record of %v bytes has no place for identifier", remaining)
+	}
+	buf, err := parser.primitiveParser.ParseByteSeq(int(remaining - parser.primitiveParser.identifierSize))
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
diff --git a/internal/core/primitive_parsers.go b/internal/core/primitive_parsers.go
index 502613b..56b1e2f 100644
--- a/internal/core/primitive_parsers.go
+++ b/internal/core/primitive_parsers.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -168,12 +169,16 @@ func (parser *PrimitiveParser) ParseJavaValue(ty JavaType) (JavaValue, error) {
 	return JavaValue{}, fmt.Errorf("unexpected Java type: %v", byte(ty))
 }
 
-// ParseByteSeq reads n bytes from underlying reader
+// ParseByteSeq reads n bytes from underlying reader. Memory is allocated
+// as the bytes are read because n may be far bigger than the rest of the dump.
 func (parser *PrimitiveParser) ParseByteSeq(n int) ([]byte, error) {
-	buf := make([]byte, n)
-	_, err := io.ReadFull(parser.heapDump, buf)
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, parser.heapDump, int64(n))
 	if err != nil {
+		if err == io.EOF && buf.Len() > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, fmt.Errorf("error in ParseByteSeq: %w", err)
 	}
-	return buf, nil
+	return buf.Bytes(), nil
 }
-- 
2.43.0


From d2f3cc47281d55071fdda02af830adc816dc4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 14/27] fix: decode Java strings according to their coder

---
 internal/java/heap.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index c23d89b..197aa94 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,13 +11,21 @@ package java
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"io"
+	"unicode/utf16"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
 )
 
+// Values of java.lang.String.coder
+const (
+	latin1Coder int8 = 0
+	utf16Coder  int8 = 1
+)
+
 // Heap contains methods for reading data
 // from the heap dump.
 type Heap struct {
@@ -72,7 +80,7 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 					if err != nil {
 						return "", fmt.Errorf("error reading `value` array for string %v: %w", str, err)
 					}
-					return string(byteArr), nil
+					return decodeString(javaString, byteArr)
 				}
 				return "", fmt.Errorf("malformed java string, `value` is not a reference to array (%T)", value.Value.Value)
 			}
@@ -83,6 +91,31 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 	return "", fmt.Errorf("passed value (%v) is not reference to object", str)
 }
 
+// decodeString converts contents of the `value` array of the given
+// java.lang.String according to its `coder`.
+func decodeString(javaString NormalObject, value []byte) (string, error) {
+	coder, err := javaString.GetFieldValueByName("coder")
+	if err != nil {
+		// unknown encoding, return the bytes as they are
+		return string(value), nil
+	}
+	switch coder.Value.Value {
+	case latin1Coder:
+		runes := make([]rune, len(value))
+		for i, b := range value {
+			runes[i] = rune(b)
+		}
+		return string(runes), nil
+	case utf16Coder:
+		units := make([]uint16, len(value)/2)
+		for i := range units {
+			units[i] = binary.LittleEndian.Uint16(value[2*i:])
+		}
+		return string(utf16.Decode(units)), nil
+	}
+	return "", fmt.Errorf("malformed java string, unknown coder %v", coder.Value.Value)
+}
+
 func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error) {
 	header, err := h.parsedAccessor.GetHprofGcPrimArray(arrayObjectId)
 	if err != nil {
-- 
2.43.0


From 660eb93d3a2f94097faaad908c6359c00b12050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 15/27] fix: subclasses do not hide fields of java.lang.Thread
 and java.util.Properties

---
 internal/java/heap.go       | 22 ++++++++++++++++++++++
 internal/summary/summary.go |  3 ++-
 internal/threads/threads.go | 14 +++++++++-----
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 197aa94..ea36f6b 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -202,6 +202,28 @@ func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifie
 	}, nil
 }
 
+// GetDeclaredFieldValue is similar to GetFieldValueByName but takes
+// the field of the given class even if it is hidden by the field of some
+// subclass that has the same name.
+func (o *NormalObject) GetDeclaredFieldValue(className, name string) (FieldValue, error) {
+	sizeInfo := core.NewSizeInfo(o.identifierSize)
+	rest := o.Bytes
+	for class := &o.Class; class != nil; class = class.Superclass {
+		if class.Name == className {
+			declared := NormalObject{identifierSize: o.identifierSize, Class: *class, Bytes: rest}
+			return declared.GetFieldValueByName(name)
+		}
+		for _, field := range class.InstanceFields {
+			fieldSize := sizeInfo.OfType(field.Type)
+			if fieldSize > len(rest) {
+				return FieldValue{}, fmt.Errorf("cannot parse value of field %v: %w", name, io.ErrUnexpectedEOF)
+			}
+			rest = rest[fieldSize:]
+		}
+	}
+	return FieldValue{}, fmt.Errorf("field {%v} not found, class %v is not in the hierarchy", name, className)
+}
+
 // GetFieldValueByName extracts instance field value by name of the field as
 // well as name of the class that actually defines requested field.
 func (o *NormalObject) GetFieldValueByName(name string) (FieldValue, error) {
diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index 26ba569..d1a3be1 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -15,6 +15,7 @@ import (
 
 const (
 	javaLangSystemClassName          = "java/lang/System"
+	javaUtilPropertiesClassName      = "java/util/Properties"
 	managementFactoryHelperClassName = "sun/management/ManagementFactoryHelper"
 	treeBinClassName                 = "java/util/concurrent/ConcurrentHashMap$TreeBin"
 )
@@ -112,7 +113,7 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 	if err != nil {
 		return nil, err
 	}
-	propsMapField, err := props.GetFieldValueByName("map")
+	propsMapField, err := props.GetDeclaredFieldValue(javaUtilPropertiesClassName, "map")
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/threads/threads.go b/internal/threads/threads.go
index 0cd6656..ea37e4a 100644
--- a/internal/threads/threads.go
+++ b/internal/threads/threads.go
@@ -25,6 +25,10 @@ import (
 	"github.com/danielleontiev/neojhat/internal/java"
 )
 
+const (
+	javaLangThreadClassName = "java/lang/Thread"
+)
+
 var (
 	UnknownString = "<unknown string>"
 )
@@ -111,7 +115,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadName, err := threadInstance.GetFieldValueByName("name")
+		threadName, err := threadInstance.GetDeclaredFieldValue(javaLangThreadClassName, "name")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -119,7 +123,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		daemon, err := threadInstance.GetFieldValueByName("daemon")
+		daemon, err := threadInstance.GetDeclaredFieldValue(javaLangThreadClassName, "daemon")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -127,7 +131,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		priority, err := threadInstance.GetFieldValueByName("priority")
+		priority, err := threadInstance.GetDeclaredFieldValue(javaLangThreadClassName, "priority")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -135,7 +139,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadId, err := threadInstance.GetFieldValueByName("tid")
+		threadId, err := threadInstance.GetDeclaredFieldValue(javaLangThreadClassName, "tid")
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -143,7 +147,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadStatus, err := threadInstance.GetFieldValueByName("threadStatus")
+		threadStatus, err := threadInstance.GetDeclaredFieldValue(javaLangThreadClassName, "threadStatus")
 		if err != nil {
 			return ThreadDump{}, err
 		}
-- 
2.43.0


From c133f9515b3996233d5589a1ff221a1222a38ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 16/27] fix: signatures of classes with parentheses in their
 names

---
 internal/format/format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 8f1dba7..06539cd 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -34,7 +34,12 @@ func Signature(signature string) (string, string) {
 	var argLen int
 	activeLen := &argLen
 	for _, s := range signature {
-		switch s {
+		kind := s
+		if inClassName && s != ';' {
+			// just the part of the name, any character is possible there
+			kind = 0
+		}
+		switch kind {
 		case '(':
 			continue
 		case ')':
-- 
2.43.0


From 076ad8e996ce7280de846f60d0b1024ac06e9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 17/27] fix: time to format signature is proportional to its
 length

---
 internal/format/format.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 06539cd..98299d1 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -28,7 +28,7 @@ func Size(bytes int) string {
 func Signature(signature string) (string, string) {
 	var inClassName bool
 	var dimCount int
-	var classNameBuffer string
+	var classNameBuffer strings.Builder
 	var result []string
 
 	var argLen int
@@ -55,17 +55,17 @@ func Signature(signature string) (string, string) {
 			}
 		case ';':
 			inClassName = false
-			result = append(result, classNameBuffer+strings.Repeat("[]", dimCount))
+			result = append(result, classNameBuffer.String()+strings.Repeat("[]", dimCount))
 			*activeLen++
-			classNameBuffer = ""
+			classNameBuffer.Reset()
 			dimCount = 0
 			continue
 		}
 		if inClassName {
 			if s == '/' {
-				classNameBuffer += "."
+				classNameBuffer.WriteByte('.')
 			} else {
-				classNameBuffer += string(s)
+				classNameBuffer.WriteRune(s)
 			}
 
 		} else {
-- 
2.43.0


From 117f6dfaf74be3788af0fe0c9bdb963793d0c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 18/27] fix: status of threads that are not started is NEW

---
 internal/threads/models.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/threads/models.go b/internal/threads/models.go
index 7e3f3a1..c79e534 100644
--- a/internal/threads/models.go
+++ b/internal/threads/models.go
@@ -58,9 +58,8 @@ func (ts ThreadStatus) String() string {
 		return "TIMED_WAITING"
 	} else if ts&ThreadStateTerminated != 0 {
 		return "TERMINATED"
-	} else if ts&ThreadStateAlive != 0 {
-		return "NEW"
 	} else {
-		return "RUNNABLE"
+		// not started yet
+		return "NEW"
 	}
 }
-- 
2.43.0


From 71095888ddcd66af4c234925971261c7d4b13aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 19/27] fix: names of array classes referenced by local
 variables

---
 internal/output/threads.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/output/threads.go b/internal/output/threads.go
index 92257f1..e282a1b 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -55,6 +55,10 @@ func createPrettyFrame(frame threads.StackFrame) string {
 
 func createPrettyStackVariable(localFrame threads.LocalFrame) string {
 	signature := localFrame.ObjectTypeSignature
+	if arrayClass, ok := strings.CutPrefix(signature, "class ["); ok { // it's class of array
+		arg, _ := format.Signature("[" + arrayClass)
+		return "class " + arg
+	}
 	if !strings.HasPrefix(signature, "[") { // it's object
 		signature = "L" + signature + ";"
 	}
-- 
2.43.0


From 1a67ff2d35d28aa38cf3f562c8c6a5520357f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 20/27] fix: use index only if it is complete and made for the
 current dump

---
 internal/cmd/subcommands.go | 94 +++++++++++++++++++++++++++++++++----
 1 file changed, 85 insertions(+), 9 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index fe97a22..88efc53 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -1,7 +1,9 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
@@ -23,6 +25,7 @@ const (
 	primArrayDumpIndexFileName = "prim-array-dump.idx.bin"
 	smallRecordsFileName       = "small-records.bin"
 	metaFileName               = "meta.bin"
+	stampBaseName              = "stamp.txt"
 )
 
 func GetThreads(hprofFileName string, noColor, localVars bool, outputType OutputType) error {
@@ -182,10 +185,19 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
-		if os.IsExist(err) {
-			return nil
-		}
+	stamp, err := dumpStamp(hprofFileName)
+	if err != nil {
+		return fmt.Errorf("can't read file [%s]: %w", hprofFileName, err)
+	}
+	stampFileName := hprofFileName + storageDirSuffix + stampBaseName
+	if savedStamp, err := os.ReadFile(stampFileName); err == nil && string(savedStamp) == stamp {
+		return nil
+	}
+	if err = os.MkdirAll(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	// there is no index until it is complete
+	if err = os.Remove(stampFileName); err != nil && !os.IsNotExist(err) {
 		return fmt.Errorf("can't create index: %w", err)
 	}
 
@@ -195,18 +207,21 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 
 	smallWriter := storage.NewSmallRecordsWriteStorage()
-	instanceDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	instanceDumpIndexFile, err := os.CreateTemp(hprofFileName+storageDirSuffix, instanceDumpIndexFileName+".*")
 	if err != nil {
 		return err
 	}
-	objArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	defer os.Remove(instanceDumpIndexFile.Name())
+	objArrayDumpIndexFile, err := os.CreateTemp(hprofFileName+storageDirSuffix, objArrayDumpIndexFileName+".*")
 	if err != nil {
 		return err
 	}
-	primArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	defer os.Remove(objArrayDumpIndexFile.Name())
+	primArrayDumpIndexFile, err := os.CreateTemp(hprofFileName+storageDirSuffix, primArrayDumpIndexFileName+".*")
 	if err != nil {
 		return err
 	}
+	defer os.Remove(primArrayDumpIndexFile.Name())
 	bigWriter := storage.NewBigRecordsWriteStorage(instanceDumpIndexFile, objArrayDumpIndexFile, primArrayDumpIndexFile)
 	metaWriter := storage.NewMetaWriteStorage()
 	parser := dump.NewParser(hprof, smallWriter, bigWriter, metaWriter)
@@ -216,25 +231,86 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	cancel()
 
-	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	smallRecordsFile, err := os.CreateTemp(hprofFileName+storageDirSuffix, smallRecordsFileName+".*")
 	if err != nil {
 		return err
 	}
+	defer os.Remove(smallRecordsFile.Name())
 	defer smallRecordsFile.Close()
 	if err := smallWriter.SerializeTo(smallRecordsFile); err != nil {
 		return fmt.Errorf("can't close small writer: %w", err)
 	}
-	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	if err := smallRecordsFile.Close(); err != nil {
+		return fmt.Errorf("can't close small writer: %w", err)
+	}
+	metaFile, err := os.CreateTemp(hprofFileName+storageDirSuffix, metaFileName+".*")
 	if err != nil {
 		return err
 	}
+	defer os.Remove(metaFile.Name())
 	defer metaFile.Close()
 	if err := metaWriter.SerializeTo(metaFile); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	if err := metaFile.Close(); err != nil {
+		return fmt.Errorf("can't close meta writer: %w", err)
+	}
+
+	currentStamp, err := dumpStamp(hprofFileName)
+	if err != nil {
+		return fmt.Errorf("can't read file [%s]: %w", hprofFileName, err)
+	}
+	if currentStamp != stamp {
+		return fmt.Errorf("file [%s] was changed while index was being created", hprofFileName)
+	}
+	for _, file := range []struct{ tempName, name string }{
+		{instanceDumpIndexFile.Name(), instanceDumpIndexFileName},
+		{objArrayDumpIndexFile.Name(), objArrayDumpIndexFileName},
+		{primArrayDumpIndexFile.Name(), primArrayDumpIndexFileName},
+		{smallRecordsFile.Name(), smallRecordsFileName},
+		{metaFile.Name(), metaFileName},
+	} {
+		if err := os.Rename(file.tempName, hprofFileName+storageDirSuffix+file.name); err != nil {
+			return fmt.Errorf("can't create index: %w", err)
+		}
+	}
+	stampFile, err := os.CreateTemp(hprofFileName+storageDirSuffix, stampBaseName+".*")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(stampFile.Name())
+	_, writeErr := stampFile.WriteString(stamp)
+	if err := errors.Join(writeErr, stampFile.Close()); err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	if err := os.Rename(stampFile.Name(), stampFileName); err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
 	return nil
 }
 
+// dumpStamp identifies the content of the dump. The stamp of the indexed
+// dump is saved when index is complete, index is used only if the dump
+// still has the same stamp.
+func dumpStamp(hprofFileName string) (string, error) {
+	hprof, err := os.Open(hprofFileName)
+	if err != nil {
+		return "", err
+	}
+	defer hprof.Close()
+	stat, err := hprof.Stat()
+	if err != nil {
+		return "", err
+	}
+	// the header contains the time of the dump
+	header := make([]byte, 31)
+	n, err := hprof.ReadAt(header, 0)
+	if err != nil && err != io.EOF {
+		return "", err
+	}
+	return fmt.Sprintf("%s %v %v %x\n", version, stat.Size(), stat.ModTime().UnixNano(), header[:n]), nil
+}
+
 func createBigReader(hprofFileName string) (*storage.BigRecordsReadStorage, error) {
 	instanceDumpFile, err := os.Open(hprofFileName + storageDirSuffix + instanceDumpIndexFileName)
 	if err != nil {
-- 
2.43.0


From ebd79d41a17a40bc2d40cea5e112935e2a48cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 21/27] fix: index of replaced dump could be taken for index of
 the new one

---
 internal/cmd/subcommands.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 88efc53..6ee3422 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -185,7 +185,8 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	stamp, err := dumpStamp(hprofFileName)
+	// of the file that is going to be parsed, the name could be given to another one meanwhile
+	stamp, err := dumpStamp(hprof)
 	if err != nil {
 		return fmt.Errorf("can't read file [%s]: %w", hprofFileName, err)
 	}
@@ -256,7 +257,12 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
 
-	currentStamp, err := dumpStamp(hprofFileName)
+	currentHprof, err := os.Open(hprofFileName)
+	if err != nil {
+		return fmt.Errorf("can't open file [%s]: %w", hprofFileName, err)
+	}
+	defer currentHprof.Close()
+	currentStamp, err := dumpStamp(currentHprof)
 	if err != nil {
 		return fmt.Errorf("can't read file [%s]: %w", hprofFileName, err)
 	}
@@ -292,12 +298,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 // dumpStamp identifies the content of the dump. The stamp of the indexed
 // dump is saved when index is complete, index is used only if the dump
 // still has the same stamp.
-func dumpStamp(hprofFileName string) (string, error) {
-	hprof, err := os.Open(hprofFileName)
-	if err != nil {
-		return "", err
-	}
-	defer hprof.Close()
+func dumpStamp(hprof *os.File) (string, error) {
 	stat, err := hprof.Stat()
 	if err != nil {
 		return "", err
-- 
2.43.0


From c6303984e6579faae3cebd3acd8ab9590cb9690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 22/27] fix: refuse header that is not terminated by zero byte

---
 internal/core/file_header_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/core/file_header_parser.go b/internal/core/file_header_parser.go
index 93e6db3..18242cc 100644
--- a/internal/core/file_header_parser.go
+++ b/internal/core/file_header_parser.go
@@ -19,8 +19,8 @@ func ParseFileHeader(heapDump io.Reader) (FileHeader, error) {
 		return FileHeader{}, fmt.Errorf("error in ParseFileHeader: %w", err)
 	}
 	header := string(str[:len(str)-1])
-	if header != ValidProfileVersion {
-		return FileHeader{}, fmt.Errorf("unsupported profile %v, only %v is supported", header, ValidProfileVersion)
+	if header != ValidProfileVersion || str[len(str)-1] != 0 {
+		return FileHeader{}, fmt.Errorf("unsupported profile %q, only %q is supported", str, ValidProfileVersion+"\x00")
 	}
 	identifiersSize, err := parserUint32(heapDump)
 	if err != nil {
-- 
2.43.0


From b1ef632b7d003c4dde23140f7df27853eaf5d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 23/27] fix: refuse unknown sub-records inside of heap segment

---
 internal/dump/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 0b2eab5..9aea069 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -243,12 +243,20 @@ func (parser *Parser) ParseHeapDump() (err error) {
 						return fmt.Errorf("error discarding records of HprofGcPrimArrayDump: %w", err)
 					}
 				case core.HprofHeapDumpEndSubRecord:
+					if header.Remaining > 0 {
+						// the segment has not ended yet
+						return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
+					}
 					if err := unreadByte(bufferedHeapDump); err != nil {
 						return fmt.Errorf("error unreading byte at HprofHeapDumpEndSubRecord: %w", err)
 					}
 					parser.pos--
 					break loop
 				case core.HprofHeapDumpSegmentSubRecord:
+					if header.Remaining > 0 {
+						// the segment has not ended yet
+						return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
+					}
 					if err := unreadByte(bufferedHeapDump); err != nil {
 						return fmt.Errorf("error unreading byte at HprofHeapDumpSegmentSubRecord: %w", err)
 					}
-- 
2.43.0


From f7bf21e8f95f0376e6ccb09a2857950a04ad5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 24/27] fix: lookup of the class scanned all the classes of the
 dump

---
 internal/storage/small.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/storage/small.go b/internal/storage/small.go
index c54bf79..b543664 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -58,11 +58,24 @@ func (s *SmallRecordsReadStorage) RestoreFrom(source io.Reader) error {
 		return fmt.Errorf("cannot deserialize: %w", err)
 	}
 	s.underlyingStorage = underlyingStorage
+	s.classById = make(map[core.Identifier]core.HprofLoadClass, len(s.HprofLoadClass))
+	s.classBySerialNumber = make(map[uint32]core.HprofLoadClass, len(s.HprofLoadClass))
+	for _, rec := range s.HprofLoadClass {
+		// the first of the records wins
+		if _, ok := s.classById[rec.ClassObjectId]; !ok {
+			s.classById[rec.ClassObjectId] = rec
+		}
+		if _, ok := s.classBySerialNumber[rec.ClassSerialNumber]; !ok {
+			s.classBySerialNumber[rec.ClassSerialNumber] = rec
+		}
+	}
 	return nil
 }
 
 type SmallRecordsReadStorage struct {
 	underlyingStorage
+	classById           map[core.Identifier]core.HprofLoadClass
+	classBySerialNumber map[uint32]core.HprofLoadClass
 }
 
 func NewSmallRecordsReadStorage() *SmallRecordsReadStorage {
@@ -130,19 +143,17 @@ func (s *SmallRecordsReadStorage) GetHprofUtf8(nameId core.Identifier) (core.Hpr
 }
 
 func (s *SmallRecordsReadStorage) GetHprofLoadClassByClassObjectId(classObjectId core.Identifier) (core.HprofLoadClass, error) {
-	for _, rec := range s.HprofLoadClass {
-		if rec.ClassObjectId == classObjectId {
-			return rec, nil
-		}
+	res, ok := s.classById[classObjectId]
+	if ok {
+		return res, nil
 	}
 	return core.HprofLoadClass{}, fmt.Errorf("Cannot find HprofLoadClass record with classObjectId = %v", classObjectId)
 }
 
 func (s *SmallRecordsReadStorage) GetHprofLoadClassByClassSerialNumer(classSerialNumber uint32) (core.HprofLoadClass, error) {
-	for _, rec := range s.HprofLoadClass {
-		if rec.ClassSerialNumber == classSerialNumber {
-			return rec, nil
-		}
+	res, ok := s.classBySerialNumber[classSerialNumber]
+	if ok {
+		return res, nil
 	}
 	return core.HprofLoadClass{}, fmt.Errorf("Cannot find HprofLoadClass record with classSerialNumber = %v", classSerialNumber)
 }
-- 
2.43.0


From 83ff25adb9232e03b08fea346777355b2200e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 25/27] fix: stack overflow on deep hierarchy of classes

---
 internal/java/heap.go | 70 ++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index ea36f6b..78f2094 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -30,10 +30,14 @@ const (
 // from the heap dump.
 type Heap struct {
 	parsedAccessor *dump.ParsedAccessor
+	classes        map[core.Identifier]*Class // classes that are already parsed
 }
 
 func NewHeap(parsedAccessor *dump.ParsedAccessor) *Heap {
-	return &Heap{parsedAccessor: parsedAccessor}
+	return &Heap{
+		parsedAccessor: parsedAccessor,
+		classes:        make(map[core.Identifier]*Class),
+	}
 }
 
 // ParseNormalObject is used to parse NormalObject by given objectId.
@@ -134,33 +138,56 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
-	return h.parseClass(classId, make(map[core.Identifier]bool))
+	class := new(Class) // class.Superclass becomes the requested one
+	last := class
+	parsed := make(map[core.Identifier]*Class)
+	// java.lang.Object has superclass id = 0
+	for id := classId; id != 0 || len(parsed) == 0; {
+		if known, ok := h.classes[id]; ok {
+			last.Superclass = known
+			break
+		}
+		if _, ok := parsed[id]; ok {
+			return Class{}, fmt.Errorf("class with id %v is superclass of itself", id)
+		}
+		next, superclassId, err := h.parseSingleClass(id)
+		if err != nil && len(parsed) > 0 {
+			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
+		}
+		if err != nil {
+			return Class{}, err
+		}
+		parsed[id] = &next
+		last.Superclass = &next
+		last = &next
+		id = superclassId
+	}
+	for id, c := range parsed {
+		h.classes[id] = c
+	}
+	return *class.Superclass, nil
 }
 
-// parseClass does the job of ParseClass, subclasses are the identifiers
-// of the classes that have led to the given one.
-func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifier]bool) (Class, error) {
-	if subclasses[classId] {
-		return Class{}, fmt.Errorf("class with id %v is superclass of itself", classId)
-	}
-	subclasses[classId] = true
+// parseSingleClass parses the class without its superclass. It returns
+// the identifier of the superclass as well.
+func (h *Heap) parseSingleClass(classId core.Identifier) (Class, core.Identifier, error) {
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading class with id %v", classId)
+		return Class{}, 0, fmt.Errorf("error reading class with id %v", classId)
 	}
 	loadClass, err := h.parsedAccessor.GetHprofLoadClassByClassObjectId(class.ClassObjectId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading HprofLoadClass by id %v: %w", class.ClassObjectId, err)
+		return Class{}, 0, fmt.Errorf("error reading HprofLoadClass by id %v: %w", class.ClassObjectId, err)
 	}
 	className, err := h.parsedAccessor.GetHprofUtf8(loadClass.ClassNameId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading class name: %w", err)
+		return Class{}, 0, fmt.Errorf("error reading class name: %w", err)
 	}
 	var staticFields []StaticField
 	for _, sf := range class.StaticFieldRecords {
 		staticFieldName, err := h.parsedAccessor.GetHprofUtf8(sf.StaticFieldName)
 		if err != nil {
-			return Class{}, fmt.Errorf("error reading field name with id %v: %w", sf.StaticFieldName, err)
+			return Class{}, 0, fmt.Errorf("error reading field name with id %v: %w", sf.StaticFieldName, err)
 		}
 		staticField := StaticField{
 			Name:  staticFieldName.Characters,
@@ -173,7 +200,7 @@ func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifie
 	for _, ins := range class.InstanceFieldRecords {
 		instanceFieldName, err := h.parsedAccessor.GetHprofUtf8(ins.InstanceFieldName)
 		if err != nil {
-			return Class{}, fmt.Errorf("error reading field name with id %v: %w", ins.InstanceFieldName, err)
+			return Class{}, 0, fmt.Errorf("error reading field name with id %v: %w", ins.InstanceFieldName, err)
 		}
 		instanceField := InstanceField{
 			Name: instanceFieldName.Characters,
@@ -182,24 +209,11 @@ func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifie
 		instanceFields = append(instanceFields, instanceField)
 	}
 
-	var superClass *Class
-	// java.lang.Object has superclass id = 0
-	if class.SuperclassObjectId == 0 {
-		superClass = nil
-	} else {
-		// TODO not stack safe, fix
-		sc, err := h.parseClass(class.SuperclassObjectId, subclasses)
-		if err != nil {
-			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
-		}
-		superClass = &sc
-	}
 	return Class{
 		Name:           className.Characters,
-		Superclass:     superClass,
 		StaticFields:   staticFields,
 		InstanceFields: instanceFields,
-	}, nil
+	}, class.SuperclassObjectId, nil
 }
 
 // GetDeclaredFieldValue is similar to GetFieldValueByName but takes
-- 
2.43.0


From e6e9e8f4f9297b865712b4e37af69715136a9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 26/27] fix: report that cannot be written completely is not
 taken for a success

Errors of writing to the standard output were ignored, the report could
be cut off, e.g. when the disk was full, and the exit status was 0.
---
 internal/cmd/subcommands.go | 18 ++++++------------
 internal/output/objects.go  | 25 ++++++++++++++-----------
 internal/output/summary.go  | 19 +++++++++++--------
 internal/output/threads.go  | 26 ++++++++++++++++----------
 4 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 6ee3422..f721989 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -66,11 +66,9 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ThreadsPlain(threadDump, localVars, os.Stdout)
-			return nil
+			return output.ThreadsPlain(threadDump, localVars, os.Stdout)
 		}
-		output.ThreadsPlainColor(threadDump, localVars)
-		return nil
+		return output.ThreadsPlainColor(threadDump, localVars)
 	}
 	if outputType == Html {
 		return output.ThreadsHtml(threadDump, localVars, os.Stdout)
@@ -116,11 +114,9 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	}
 	if outputType == Plain {
 		if noColor {
-			output.SummaryPlain(s, os.Stdout)
-			return nil
+			return output.SummaryPlain(s, os.Stdout)
 		}
-		output.SummaryPlainColor(s)
-		return nil
+		return output.SummaryPlainColor(s)
 	}
 	if outputType == Html {
 		return output.SummaryHtml(s, os.Stdout)
@@ -166,11 +162,9 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ObjectsPlain(obj, os.Stdout)
-			return nil
+			return output.ObjectsPlain(obj, os.Stdout)
 		}
-		output.ObjectsPlainColor(obj)
-		return nil
+		return output.ObjectsPlainColor(obj)
 	}
 	if outputType == Html {
 		return output.ObjectsHtml(obj, os.Stdout)
diff --git a/internal/output/objects.go b/internal/output/objects.go
index 9840362..bb200d4 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 	"strconv"
 
@@ -32,18 +33,19 @@ type printItem struct {
 
 // ObjectsPlain print the result of objects command
 // without colors
-func ObjectsPlain(o objects.Objects, destination io.Writer) {
+func ObjectsPlain(o objects.Objects, destination io.Writer) error {
 	id := func(s string) string { return s }
-	print(o, id, id, id, id, destination)
+	return print(o, id, id, id, id, destination)
 }
 
 // ObjectsPlainColor is the same as ObjectsPlain but
 // with colorful output
-func ObjectsPlainColor(o objects.Objects) {
-	print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
+func ObjectsPlainColor(o objects.Objects) error {
+	return print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
 }
 
-func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) {
+func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) error {
+	out := bufio.NewWriter(destination) // keeps the error of the destination until Flush
 	printObj := getPrintItems(o)
 	const gap = 10
 	var maxName, maxCount, maxSize int
@@ -72,17 +74,18 @@ func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColo
 		return classNameColor(name) + " |" + numColor(count) + " |" + numColor(size) + " |"
 	}
 
-	fmt.Fprintln(destination, summaryColor(fmt.Sprintf("Instances: %v", printObj.TotalCount)))
-	fmt.Fprintln(destination, summaryColor(fmt.Sprintf("Total Size: %v", printObj.TotalSize)))
-	fmt.Fprintln(destination)
+	fmt.Fprintln(out, summaryColor(fmt.Sprintf("Instances: %v", printObj.TotalCount)))
+	fmt.Fprintln(out, summaryColor(fmt.Sprintf("Total Size: %v", printObj.TotalSize)))
+	fmt.Fprintln(out)
 
 	header := alignLeft(printObj.NameHeader, maxName) + " |" + alignRight(printObj.InstancesCountHeader, maxCount) +
 		" |" + alignRight(printObj.TotalSizeHeader, maxSize) + " |"
-	fmt.Fprintln(destination, headerColor(header))
-	fmt.Fprintln(destination, strings.Repeat("-", gap*3+maxName+maxCount+maxSize+6))
+	fmt.Fprintln(out, headerColor(header))
+	fmt.Fprintln(out, strings.Repeat("-", gap*3+maxName+maxCount+maxSize+6))
 	for _, item := range printObj.Items {
-		fmt.Fprintln(destination, stringifyItem(item))
+		fmt.Fprintln(out, stringifyItem(item))
 	}
+	return out.Flush()
 }
 
 func getPrintItems(o objects.Objects) printObject {
diff --git a/internal/output/summary.go b/internal/output/summary.go
index 90eb8e3..e070bd1 100644
--- a/internal/output/summary.go
+++ b/internal/output/summary.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 
 	"fmt"
@@ -16,25 +17,27 @@ import (
 
 // SummaryPlain prints given Properties
 // in beautiful manner
-func SummaryPlain(s summary.Summary, destination io.Writer) {
+func SummaryPlain(s summary.Summary, destination io.Writer) error {
 	identity := func(s string) string { return s }
-	printSummary(s, identity, identity, identity, destination)
+	return printSummary(s, identity, identity, identity, destination)
 }
 
 // SummaryPlainColor prints given Properties
 // in beautiful manner with colors
-func SummaryPlainColor(s summary.Summary) {
-	printSummary(s, Blue, Bold, Cyan, os.Stdout)
+func SummaryPlainColor(s summary.Summary) error {
+	return printSummary(s, Blue, Bold, Cyan, os.Stdout)
 }
 
-func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) {
+func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) error {
+	out := bufio.NewWriter(destination) // keeps the error of the destination until Flush
 	props := getPropertiesList(s)
 	maxKeyLen := maxKeyLength(props)
 	for _, p := range props {
-		fmt.Fprintln(destination, "- "+p.Name)
-		printProperties(p.Kv, maxKeyLen, keyColor, valColor, destination)
-		fmt.Fprintln(destination)
+		fmt.Fprintln(out, "- "+p.Name)
+		printProperties(p.Kv, maxKeyLen, keyColor, valColor, out)
+		fmt.Fprintln(out)
 	}
+	return out.Flush()
 }
 
 type Properties struct {
diff --git a/internal/output/threads.go b/internal/output/threads.go
index e282a1b..a47925f 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -1,11 +1,13 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 
 	"fmt"
 	"html/template"
 	"io"
+	"os"
 	"sort"
 	"strings"
 
@@ -16,20 +18,22 @@ import (
 
 // ThreadsPlain prints given thread dump
 // in beautiful manner
-func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) {
+func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) error {
+	out := bufio.NewWriter(destination) // keeps the error of the destination until Flush
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Fprintln(destination, createPrettyThread(stackTrace))
+		fmt.Fprintln(out, createPrettyThread(stackTrace))
 		for _, frame := range stackTrace.Frames {
-			fmt.Fprintf(destination, "    %s\n", createPrettyFrame(frame))
+			fmt.Fprintf(out, "    %s\n", createPrettyFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
-					fmt.Fprintf(destination, "        local %s\n", createPrettyStackVariable(local))
+					fmt.Fprintf(out, "        local %s\n", createPrettyStackVariable(local))
 				}
 			}
 		}
-		fmt.Fprintln(destination)
+		fmt.Fprintln(out)
 	}
+	return out.Flush()
 }
 
 func createPrettyThread(stackTrace threads.StackTrace) string {
@@ -89,21 +93,23 @@ func getSortedStackTraces(threadDump threads.ThreadDump) []threads.StackTrace {
 
 // ThreadsPlainColor prints given thread dump
 // in beautiful manner with ANSI colors
-func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) {
+func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) error {
+	out := bufio.NewWriter(os.Stdout)
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Println(Bold(createPrettyThread(stackTrace)))
+		fmt.Fprintln(out, Bold(createPrettyThread(stackTrace)))
 		for _, frame := range stackTrace.Frames {
-			fmt.Printf("	%s\n", createPrettyColorfulFrame(frame))
+			fmt.Fprintf(out, "	%s\n", createPrettyColorfulFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
 					localString := createPrettyStackVariable(local)
-					fmt.Printf("		local %s\n", Blue(localString))
+					fmt.Fprintf(out, "		local %s\n", Blue(localString))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(out)
 	}
+	return out.Flush()
 }
 
 func createPrettyColorfulFrame(frame threads.StackFrame) string {
-- 
2.43.0


From d8168c8c00d9350029741a9fce2cf8eac297ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 27/27] fix: temporary files of killed analyses do not pile up
 next to the dump

They have random names, every killed analysis left its own ones forever.
---
 internal/cmd/subcommands.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index f721989..9b5df69 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
+	"time"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -28,6 +30,10 @@ const (
 	stampBaseName              = "stamp.txt"
 )
 
+const (
+	leftoversAge = 24 * time.Hour // no analysis takes so long
+)
+
 func GetThreads(hprofFileName string, noColor, localVars bool, outputType OutputType) error {
 	hprof, err := os.Open(hprofFileName)
 	if err != nil {
@@ -179,6 +185,8 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
+	removeLeftovers(hprofFileName + storageDirSuffix)
+
 	// of the file that is going to be parsed, the name could be given to another one meanwhile
 	stamp, err := dumpStamp(hprof)
 	if err != nil {
@@ -289,6 +297,29 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	return nil
 }
 
+// removeLeftovers removes temporary files of the analyses that were killed.
+// The recent ones may belong to the analysis that is still running.
+func removeLeftovers(storageDir string) {
+	entries, err := os.ReadDir(storageDir)
+	if err != nil {
+		return // there is no index yet
+	}
+	for _, entry := range entries {
+		// the digits are added by os.CreateTemp
+		base, found := strings.CutSuffix(strings.TrimRight(entry.Name(), "0123456789"), ".")
+		switch base {
+		case instanceDumpIndexFileName, objArrayDumpIndexFileName, primArrayDumpIndexFileName,
+			smallRecordsFileName, metaFileName, stampBaseName:
+		default:
+			continue
+		}
+		info, err := entry.Info()
+		if found && err == nil && info.Mode().IsRegular() && time.Since(info.ModTime()) > leftoversAge {
+			os.Remove(storageDir + entry.Name())
+		}
+	}
+}
+
 // dumpStamp identifies the content of the dump. The stamp of the indexed
 // dump is saved when index is complete, index is used only if the dump
 // still has the same stamp.
-- 
2.43.0

