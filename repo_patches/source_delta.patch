From 0c874443b22986c69566d291a89fdccfca2434c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 01/43] fix: awdb lookup panics on absent addresses and
 non-text values

---
 db/format/awdb/dumper.go  | 12 ++++++++----
 db/format/awdb/fields.go  | 15 +++++++++++++++
 db/format/awdb/querier.go | 12 ++++++++----
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index 29bc19f..e4d02a6 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -1,6 +1,7 @@
 package awdb
 
 import (
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 	"log"
@@ -62,14 +63,17 @@ func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	var record interface{}
-	ipNet, _, err := t.reader.LookupNetwork(ip, &record)
+	ipNet, ok, err := t.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
 
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
+	data, err := textFields(record)
+	if err != nil {
+		return nil, nil, err
 	}
 	return ipNet, data, nil
 }
diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index ef5bdf6..d889efe 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -140,3 +140,18 @@ func (m *Metadata) IpType() inf.IpType {
 	}
 	return ipType
 }
+
+// textFields keeps the textual values of a decoded record.
+func textFields(record interface{}) (map[string]string, error) {
+	m, ok := record.(map[string]interface{})
+	if !ok {
+		return nil, newInvalidDatabaseError("record is not a map")
+	}
+	data := make(map[string]string, len(m))
+	for k, v := range m {
+		if b, ok := v.([]byte); ok {
+			data[k] = string(b)
+		}
+	}
+	return data, nil
+}
diff --git a/db/format/awdb/querier.go b/db/format/awdb/querier.go
index 5ac994b..f40a2e3 100644
--- a/db/format/awdb/querier.go
+++ b/db/format/awdb/querier.go
@@ -1,6 +1,7 @@
 package awdb
 
 import (
+	"github.com/qiniu/uip/db"
 	"log"
 	"net"
 
@@ -65,14 +66,17 @@ func (q *querier) BuildCache(ipList []string) {
 
 func (q *querier) Find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	var record interface{}
-	ipNet, _, err := q.reader.LookupNetwork(ip, &record)
+	ipNet, ok, err := q.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
 
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
+	data, err := textFields(record)
+	if err != nil {
+		return nil, nil, err
 	}
 	return ipNet, data, nil
 }
-- 
2.43.0


From 17cf1561252d9abbd7929637974dc40a6c67d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 02/43] fix: ipdb lookup ignores the error of the tree search

---
 db/format/ipdb/querier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 3034a01..479e596 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -40,6 +40,9 @@ func (q *querier) Query(ip net.IP) (*inf.IpInfo, int, error) {
 
 func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, error) {
 	node, body, mask, err := q.r.find0(ip)
+	if err != nil {
+		return 0, nil, 0, err
+	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
 			return node, v, mask, nil
-- 
2.43.0


From dbeffd961aa70a83cfabbcdfe29610bafcf440ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 03/43] fix: awdb reader crashes on damaged files

---
 db/format/awdb/decoder.go | 53 +++++++++++++++++++++++++--------------
 db/format/awdb/reader.go  | 14 +++++++++--
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 98addb8..d15b214 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -299,6 +299,10 @@ func (d *decoder) unmarshalMap(
 	result reflect.Value,
 	depth int,
 ) (uint, error) {
+	// every entry takes at least two bytes
+	if size > (uint(len(d.buffer))-offset)/2 {
+		return 0, newOffsetError()
+	}
 	result = d.indirect(result)
 	switch result.Kind() {
 	default:
@@ -333,6 +337,10 @@ func (d *decoder) unmarshalSlice(
 	result reflect.Value,
 	depth int,
 ) (uint, error) {
+	// every element takes at least one byte
+	if size > uint(len(d.buffer))-offset {
+		return 0, newOffsetError()
+	}
 	switch result.Kind() {
 	case reflect.Slice:
 		return d.decodeSlice(size, offset, result, depth)
@@ -660,6 +668,13 @@ func uintFromBytes(prefix uint, uintBytes []byte) uint {
 // copying the bytes when decoding a struct. Previously, we achieved this by
 // using unsafe.
 func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
+	return d.decodeKeyDepth(offset, 0)
+}
+
+func (d *decoder) decodeKeyDepth(offset uint, depth int) ([]byte, uint, error) {
+	if depth > maximumDataStructureDepth {
+		return nil, 0, newInvalidDatabaseError("exceeded maximum data structure depth; database is likely corrupt")
+	}
 	typeNum, size, dataOffset, err := d.decodeCtrlData(offset)
 	if err != nil {
 		return nil, 0, err
@@ -669,7 +684,7 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 		if err != nil {
 			return nil, 0, err
 		}
-		key, _, err := d.decodeKey(pointer)
+		key, _, err := d.decodeKeyDepth(pointer, depth+1)
 		return key, ptrOffset, err
 	}
 	if typeNum != _String {
@@ -686,26 +701,26 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 // the one at the offset passed in. The size bits have different meanings for
 // different data types
 func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error) {
-	if numberToSkip == 0 {
-		return offset, nil
-	}
-	typeNum, size, offset, err := d.decodeCtrlData(offset)
-	if err != nil {
-		return 0, err
-	}
-	switch typeNum {
-	case _Pointer:
-		_, offset, err = d.decodePointer(size, offset)
+	for ; numberToSkip > 0; numberToSkip-- {
+		typeNum, size, newOffset, err := d.decodeCtrlData(offset)
 		if err != nil {
 			return 0, err
 		}
-	case _Map:
-		numberToSkip += 2 * size
-	case _Slice:
-		numberToSkip += size
-	case _Bool:
-	default:
-		offset += size
+		offset = newOffset
+		switch typeNum {
+		case _Pointer:
+			_, offset, err = d.decodePointer(size, offset)
+			if err != nil {
+				return 0, err
+			}
+		case _Map:
+			numberToSkip += 2 * size
+		case _Slice:
+			numberToSkip += size
+		case _Bool:
+		default:
+			offset += size
+		}
 	}
-	return d.nextValueOffset(offset, numberToSkip-1)
+	return offset, nil
 }
diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 5592167..96a6619 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -43,6 +43,9 @@ const metaDetectStart = 2000
 // a Reader structure or an error.
 func FromBytes(buffer []byte) (*Reader, error) {
 	detectOffset := len(buffer) - metaDetectStart
+	if detectOffset < 0 {
+		detectOffset = 0
+	}
 	metaIn := buffer[detectOffset:]
 	metadataStart := bytes.LastIndex(metaIn, metadataStartMarker)
 
@@ -61,6 +64,15 @@ func FromBytes(buffer []byte) (*Reader, error) {
 	}
 
 	metadataStart += detectOffset
+	switch metadata.RecordSize {
+	case 24, 28, 32:
+	default:
+		return nil, newInvalidDatabaseError("unknown record size: %d", metadata.RecordSize)
+	}
+	// also keeps the size of the search tree from overflowing
+	if metadata.NodeCount > uint(len(buffer)) {
+		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
+	}
 	searchTreeSize := metadata.NodeCount * metadata.RecordSize / 4
 	dataSectionStart := searchTreeSize + dataSectionSeparatorSize
 	dataSectionEnd := uint(metadataStart)
@@ -80,8 +92,6 @@ func FromBytes(buffer []byte) (*Reader, error) {
 		nodeReader = nodeReader28{buffer: nodeBuffer}
 	case 32:
 		nodeReader = nodeReader32{buffer: nodeBuffer}
-	default:
-		return nil, newInvalidDatabaseError("unknown record size: %d", metadata.RecordSize)
 	}
 
 	reader := &Reader{
-- 
2.43.0


From cbd22453bbd48547d2ed68c42809976e5d9918d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 04/43] fix: ipdb reader crashes on damaged files

---
 db/format/ipdb/reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index cff845a..d3b44e6 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -47,6 +47,9 @@ const iOff = 5
 
 func newReaderFromBytes(data []byte) (*reader, error) {
 	var meta MetaData
+	if len(data) < 4 {
+		return nil, db2.ErrFileSize
+	}
 	metaLength := int(binary.BigEndian.Uint32(data[0:4]))
 	if len(data) < (4 + metaLength) {
 		return nil, db2.ErrFileSize
@@ -60,6 +63,10 @@ func newReaderFromBytes(data []byte) (*reader, error) {
 	if len(data) != (4 + metaLength + meta.TotalSize) {
 		return nil, db2.ErrFileSize
 	}
+	// the search reads any of the nodes
+	if meta.NodeCount < 0 || meta.NodeCount > meta.TotalSize/8 {
+		return nil, db2.ErrMetaData
+	}
 
 	db := &reader{
 		fileSize:        len(data),
@@ -145,7 +152,7 @@ func (db *reader) decodeInfo(body []byte, off int) ([]string, error) {
 	str := (*string)(unsafe.Pointer(&body))
 	tmp := strings.Split(*str, "\t")
 
-	if (off + len(db.meta.Fields)) > len(tmp) {
+	if off < 0 || off > len(tmp)-len(db.meta.Fields) {
 		return nil, db2.ErrDatabaseError
 	}
 	ret := tmp[off : off+len(db.meta.Fields)]
@@ -254,7 +261,7 @@ func (db *reader) readNode(node, indexBit int) int {
 
 func (db *reader) resolve(node int) ([]byte, error) {
 	resolved := node - db.nodeCount + db.nodeCount*8
-	if resolved >= db.fileSize {
+	if resolved+2 > len(db.data) {
 		return nil, db2.ErrDatabaseError
 	}
 
-- 
2.43.0


From 7aced5d9c439c2a72097df37c6f87678244e00cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 05/43] fix: memip pack panics on an empty dataset

---
 db/format/memip/packer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index f9e0330..4aaa28a 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -35,7 +35,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 			prev.f = values
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
 		if ipd.Version.IsIpV4() {
-- 
2.43.0


From d6aa7fbb941870f38236be6c6cbe95c0bc8d7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 06/43] fix: text dumpers crash on malformed files and drop
 what they cannot read

---
 db/format/memip/dumper.go | 17 ++++++++++++-----
 db/format/plain/dumper.go | 32 ++++++++++++++++++++++----------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index f0685b5..947005f 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
 )
@@ -52,6 +53,12 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	for scanner.Scan() {
 		t.lines = append(t.lines, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if len(t.lines) == 0 {
+		return nil, db.ErrEmptyFile
+	}
 	return t, nil
 }
 
@@ -95,8 +102,11 @@ func parseLine(line string) (*ipnet.Range, []string, error) {
 		rg = parseV4Range(array[0:2])
 	}
 
-	view := array[2]
-	return rg, splitView(view), nil
+	values := splitView(array[2])
+	if rg == nil || ipnet.IPLess(rg.End, rg.Start) || len(values) != len(fields) {
+		return nil, nil, errors.New("bad format:" + line)
+	}
+	return rg, values, nil
 }
 
 type row struct {
@@ -125,9 +135,6 @@ func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 			values = prevInfo
 		}
 		rows = append(rows, row{rg: cidr, view: values})
-		if ipnet.IsAllMask(cidr.End) {
-			break
-		}
 		prevInfo = values
 	}
 	var ipd = inf.IpData{
diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index bc140d3..8f17595 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -9,10 +9,10 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
-	"github.com/qiniu/uip/ipnet"
 )
 
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
@@ -44,20 +44,32 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 			// ignore title
 		} else if lineOffset == 1 {
 			//	ignore prefix "#### "
-			err := json.Unmarshal(scanner.Bytes()[5:], &t.Version)
+			b := scanner.Bytes()
+			if len(b) < 5 {
+				return nil, errors.New("invalid version line: " + scanner.Text())
+			}
+			err := json.Unmarshal(b[5:], &t.Version)
 			if err != nil {
 				return nil, err
 			}
 		} else if lineOffset == 2 {
 			//	ignore prefix "#### "
-			b := scanner.Bytes()[5:]
-			t.Fields = strings.Split(string(b), ",")
-			t.lines = make([]string, 0, t.Version.Count+1)
+			b := scanner.Bytes()
+			if len(b) < 5 {
+				return nil, errors.New("invalid fields line: " + scanner.Text())
+			}
+			t.Fields = strings.Split(string(b[5:]), ",")
 		} else {
 			t.lines = append(t.lines, scanner.Text())
 		}
 		lineOffset += 1
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if t.Version == nil || t.Fields == nil {
+		return nil, db.ErrMetaNotFound
+	}
 	return t, nil
 }
 
@@ -108,7 +120,7 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		ret.Fields = exporter.Fields()
 	}
 	fieldsMap = export.Select(fieldToMap(t.Fields), ret.Fields)
-	ret.Ips = make([]inf.IpRaw, 0, t.Version.Count+1)
+	ret.Ips = make([]inf.IpRaw, 0, len(t.lines))
 	var prevInfo []string
 	for _, line := range t.lines {
 		cidr, info, err := t.parseLine(line)
@@ -119,6 +131,10 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 		if exporter != nil {
 			values = exporter.Export(fieldsMap, info)
+		} else {
+			for _, f := range t.Fields {
+				values = append(values, info[f])
+			}
 		}
 
 		if reflect.DeepEqual(values, prevInfo) {
@@ -126,10 +142,6 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		}
 
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
-		last := ipnet.LastIP(cidr)
-		if ipnet.IsAllMask(last) {
-			break
-		}
 		prevInfo = values
 	}
 
-- 
2.43.0


From 8e2933e2772855a312081233bb12b5f0e1632e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 07/43] fix: field operations corrupt rows

---
 db/field/operate/district.go | 14 +++-------
 db/field/operate/line.go     | 50 ++++++++++--------------------------
 db/field/operate/operate.go  | 27 ++++++++++++++++++-
 db/field/operate/replace.go  | 34 ++++++++----------------
 4 files changed, 53 insertions(+), 72 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 682ade0..066d5c6 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -52,26 +52,18 @@ var provinceDistrict = map[string]string{
 }
 
 func AttachDistrict(data *inf.IpData) {
-	districtOffset := field.Offset(field.District, data.Fields)
-	if districtOffset == -1 {
-		data.Fields = append(data.Fields, field.District)
-	}
-
 	provinceOffset := field.Offset(field.Province, data.Fields)
 	if provinceOffset == -1 {
 		return
 	}
 
+	districtOffset := addField(data, field.District)
+
 	for k, row := range data.Ips {
 		var district string
 		if p := row.FieldValues[provinceOffset]; p != "" {
 			district = provinceDistrict[p]
 		}
-		if districtOffset == -1 {
-			row.FieldValues = append(row.FieldValues, district)
-		} else {
-			row.FieldValues[districtOffset] = district
-		}
-		data.Ips[k] = row
+		data.Ips[k].FieldValues = withValue(row.FieldValues, districtOffset, district)
 	}
 }
diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 8d8291d..66bb762 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -13,61 +13,38 @@ import (
 func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 	lineVer := fmt.Sprintf("%s-%d", line.VersionInfo().Version, line.VersionInfo().Build)
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, lineVer)
-	var lineOffset int
-	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
-		data.Fields = append(data.Fields, field.Line)
-	}
 	countryOffset := field.Offset(field.Country, data.Fields)
 	if countryOffset == -1 {
 		return
 	}
+	lineOffset := addField(data, field.Line)
 
 	for k, row := range data.Ips {
 		var ispline string
 		if row.FieldValues[countryOffset] == "中国" {
 			ispline = queryLine(row.Cidr, line)
 		}
-		if lineOffset == -1 {
-			row.FieldValues = append(row.FieldValues, ispline)
-		} else {
-			row.FieldValues[lineOffset] = ispline
-		}
-		data.Ips[k] = row
+		data.Ips[k].FieldValues = withValue(row.FieldValues, lineOffset, ispline)
 	}
 }
 
 func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer string) {
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, asnLineVer)
-	var hasLine bool
-	var lineOffset int
-	var asnOffset int
 	// if there is no asn field, return
-	if !field.InArray(field.Asn, data.Fields) {
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if asnOffset == -1 {
 		return
 	}
-	if !field.InArray(field.Line, data.Fields) {
-		data.Fields = append(data.Fields, field.Line)
-		hasLine = true
-		lineOffset = len(data.Fields) - 1
-	} else {
-		for i, f := range data.Fields {
-			if f == field.Line {
-				lineOffset = i
-			} else if f == field.Asn {
-				asnOffset = i
-			}
-		}
-	}
+	lineOffset := addField(data, field.Line)
 	for k, row := range data.Ips {
-		asn := row.FieldValues[asnOffset]
-		if line, ok := asnLine[asn]; ok {
-			if hasLine {
-				row.FieldValues = append(row.FieldValues, line)
-			} else if line == "" {
-				row.FieldValues[lineOffset] = line
-			}
-			data.Ips[k] = row
+		var line string
+		if lineOffset < len(row.FieldValues) {
+			line = row.FieldValues[lineOffset]
+		}
+		if l, ok := asnLine[row.FieldValues[asnOffset]]; ok && l != "" {
+			line = l
 		}
+		data.Ips[k].FieldValues = withValue(row.FieldValues, lineOffset, line)
 	}
 }
 
@@ -110,8 +87,7 @@ func ReplaceLineByCidr(data *inf.IpData, line inf.Query) {
 			ispline = queryLine(row.Cidr, line)
 		}
 		if ispline != "" {
-			row.FieldValues[ispOffset] = ispline
-			data.Ips[k] = row
+			data.Ips[k].FieldValues = withValue(row.FieldValues, ispOffset, ispline)
 		}
 	}
 }
diff --git a/db/field/operate/operate.go b/db/field/operate/operate.go
index 4aa30bd..c3dec61 100644
--- a/db/field/operate/operate.go
+++ b/db/field/operate/operate.go
@@ -1,6 +1,9 @@
 package operate
 
-import "github.com/qiniu/uip/db/inf"
+import (
+	"github.com/qiniu/uip/db/field"
+	"github.com/qiniu/uip/db/inf"
+)
 
 type Operate func(data *inf.IpData)
 
@@ -9,3 +12,25 @@ var DefaultOperates = []Operate{
 	TrimAsnIspDup,
 	MergeNearNetwork,
 }
+
+// addField returns the offset of the field f, which it adds if it is missing.
+func addField(data *inf.IpData, f string) int {
+	offset := field.Offset(f, data.Fields)
+	if offset == -1 {
+		offset = len(data.Fields)
+		data.Fields = append(data.Fields[:offset:offset], f)
+	}
+	return offset
+}
+
+// withValue returns a copy of values with v at offset, which may be one past
+// the end. Rows share their values, so that they must not be changed in place.
+func withValue(values []string, offset int, v string) []string {
+	ret := make([]string, len(values), len(values)+1)
+	copy(ret, values)
+	if offset == len(ret) {
+		return append(ret, v)
+	}
+	ret[offset] = v
+	return ret
+}
diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index c4944ed..9391266 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -13,8 +13,8 @@ import (
 var mainIsp = []string{"电信", "联通", "移动", "铁通"}
 
 func asnMatchIsp(s string, set map[string]map[string]bool) string {
-	for k, v := range set {
-		if _, ok := v[s]; ok {
+	for _, k := range mainIsp {
+		if set[k][s] {
 			return k
 		}
 	}
@@ -23,26 +23,16 @@ func asnMatchIsp(s string, set map[string]map[string]bool) string {
 
 // TrimAsnIspDup some small isp use main isp bonenet whose asn is same as main isp
 func TrimAsnIspDup(data *inf.IpData) {
-	var ispOffset int
-	var asnOffset int
-	for i, f := range data.Fields {
-		if f == field.ISP {
-			ispOffset = i
-		} else if f == field.Asn {
-			asnOffset = i
-		}
-	}
-	if ispOffset == 0 {
+	ispOffset := field.Offset(field.ISP, data.Fields)
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if ispOffset == -1 || asnOffset == -1 {
 		return
 	}
 	var mainIspAsnMap = make(map[string]map[string]bool)
 	for _, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-		if asnOffset == 0 {
-			continue
-		}
 		asn := row.FieldValues[asnOffset]
-		if field.InArray(isp, mainIsp) {
+		if asn != "" && field.InArray(isp, mainIsp) {
 			if _, ok := mainIspAsnMap[isp]; !ok {
 				a := make(map[string]bool)
 				a[asn] = true
@@ -53,10 +43,6 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 	}
 
-	if asnOffset == 0 {
-		return
-	}
-
 	// replace some isp that asn appear in main isp
 	for k, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
@@ -66,7 +52,7 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 
 		if v := asnMatchIsp(asn, mainIspAsnMap); v != "" {
-			data.Ips[k].FieldValues[ispOffset] = v
+			data.Ips[k].FieldValues = withValue(row.FieldValues, ispOffset, v)
 		}
 	}
 }
@@ -83,7 +69,7 @@ func ReplaceShortage(ipdata *inf.IpData) {
 		for i, v := range row.FieldValues {
 			if m, ok := offsets[i]; ok {
 				if v, ok := m[v]; ok {
-					ipdata.Ips[k].FieldValues[i] = v
+					ipdata.Ips[k].FieldValues = withValue(ipdata.Ips[k].FieldValues, i, v)
 				}
 			}
 		}
@@ -118,7 +104,9 @@ func MergeNearNetwork(ipd *inf.IpData) {
 			prev.f = ip.FieldValues
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	ipd.Ips = make([]inf.IpRaw, 0, len(ipd.Ips))
 	for _, ipRange := range ipRanges {
 		subs := ipRange.r.IPNets()
-- 
2.43.0


From 0a41a6ba042a6ebff009c500e43f1b7a1a02246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 08/43] fix: ipdb pack acknowledges datasets it did not store

---
 db/errors.go             |  1 +
 db/format/ipdb/packer.go |  8 +++++++-
 db/format/ipdb/writer.go | 31 +++++++++++++++++++++++++++++--
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/db/errors.go b/db/errors.go
index 9bc11bc..11ee007 100644
--- a/db/errors.go
+++ b/db/errors.go
@@ -20,6 +20,7 @@ var (
 
 	ErrIPVersionNotSupported = errors.New("IP version not supported")
 	ErrInvalidFieldsLength   = errors.New("invalid fields length")
+	ErrInvalidRecord         = errors.New("invalid record")
 	ErrInvalidCIDR           = errors.New("invalid CIDR")
 	ErrCIDRConflict          = errors.New("CIDR conflict")
 	ErrMetaNotFound          = errors.New("meta not found")
diff --git a/db/format/ipdb/packer.go b/db/format/ipdb/packer.go
index fb7d47b..569dee9 100644
--- a/db/format/ipdb/packer.go
+++ b/db/format/ipdb/packer.go
@@ -1,6 +1,7 @@
 package ipdb
 
 import (
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"io"
 )
@@ -8,10 +9,15 @@ import (
 func pack(ipd *inf.IpData, writer io.Writer) error {
 	meta := buildMeta(ipd.Version)
 	meta.Fields = covertFields(ipd.Fields)
+	if len(meta.Fields) == 0 {
+		return db.ErrInvalidFieldsLength
+	}
 	w := NewWriter(*meta, nil)
 	// writer insert ipraw from ipd
 	for _, v := range ipd.Ips {
-		w.insert(v.Cidr, v.FieldValues)
+		if err := w.insert(v.Cidr, v.FieldValues); err != nil {
+			return err
+		}
 	}
 	return w.Save(writer)
 }
diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 9f64ac8..052594c 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -23,6 +23,7 @@ import (
 	"github.com/qiniu/uip/db"
 	"io"
 	"log"
+	"math"
 	"net"
 	"strings"
 )
@@ -110,17 +111,25 @@ func (p *Writer) Save(w io.Writer) error {
 
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
-	mask, _ := ipNet.Mask.Size()
+	mask, bits := ipNet.Mask.Size()
+	if bits == 0 || (mask == 0 && ipNet.IP.To4() == nil) {
+		// not a prefix, or one without a bit to put into the tree
+		return db.ErrInvalidCIDR
+	}
+	if err := p.checkValues(values); err != nil {
+		return err
+	}
 	node, index, ok := p.Nodes(ipNet.IP, mask)
 	if !ok {
 		log.Printf("load cidr failed cidr(%s) data(%s) node(%d) index(%d) preview data(%s)\n", ipNet, values, node, index, p.resolve(-p.node[node][index]))
 		return db.ErrInvalidCIDR
 	}
-	if p.node[node][index] > 0 {
+	if p.node[node][index] != 0 {
 		log.Printf("cidr conflict %s %s\n", ipNet, values)
 		return db.ErrCIDRConflict
 	}
 	if p.continentOffset >= 0 {
+		values = append([]string(nil), values...)
 		switch values[p.continentOffset] {
 		case "亚洲":
 			values[p.continentOffset] = "AS"
@@ -143,6 +152,24 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	return nil
 }
 
+// checkValues 检查数据能否被保存
+func (p *Writer) checkValues(values []string) error {
+	if len(values) != len(p.Meta.Fields) {
+		return db.ErrInvalidFieldsLength
+	}
+	size := len(values) - 1
+	for _, v := range values {
+		if strings.Contains(v, FieldsSep) {
+			return db.ErrInvalidRecord
+		}
+		size += len(v)
+	}
+	if size > math.MaxUint16 {
+		return db.ErrInvalidRecord
+	}
+	return nil
+}
+
 // resolve 解析数据
 func (p *Writer) resolve(offset int) string {
 	offset -= 8
-- 
2.43.0


From 2bfe5f597b21819ceb571480af4219df083d7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 09/43] fix: query.NewDb panics on an unreadable file

---
 db/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/query/query.go b/db/query/query.go
index b7f5b7c..3311c3e 100644
--- a/db/query/query.go
+++ b/db/query/query.go
@@ -20,7 +20,7 @@ type Db struct {
 func NewDb(file string) (*Db, error) {
 	b, err := os.ReadFile(file)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	extend := path.Ext(file)
 	return NewDbFromBytes(extend, b)
-- 
2.43.0


From 45f0dd2e9d05bf9bb3cb12f9d3b28cd67de01669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 10/43] fix: scan and memip packers and PackFile ignore write
 and close errors

---
 db/convert/packer.go      |  7 +++++--
 db/format/memip/packer.go |  9 ++++++---
 db/format/plain/packer.go | 13 ++++++++-----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/db/convert/packer.go b/db/convert/packer.go
index c676d96..9eb446d 100644
--- a/db/convert/packer.go
+++ b/db/convert/packer.go
@@ -17,9 +17,12 @@ func PackFile(ipFile string, ipData *inf.IpData) error {
 	if err != nil {
 		return err
 	}
-	defer file.Close()
 	extend := path.Ext(ipFile)
-	return PackWriter(extend, ipData, file)
+	err = PackWriter(extend, ipData, file)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 func PackBytes(kind string, ipData *inf.IpData) ([]byte, error) {
diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index 4aaa28a..ca6dac4 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -1,6 +1,7 @@
 package memip
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"reflect"
@@ -38,15 +39,17 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	if prev.r != nil {
 		ipRanges = append(ipRanges, prev)
 	}
+	// the first write error sticks and is returned by Flush
+	w := bufio.NewWriter(writer)
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
 		if ipd.Version.IsIpV4() {
-			fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
+			fmt.Fprintf(w, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
 		} else {
-			fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+			fmt.Fprintf(w, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
 		}
 	}
-	return nil
+	return w.Flush()
 }
 
 func fieldOffsets(fs []string) []int {
diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 8ebffd1..d6f6e0c 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -1,6 +1,7 @@
 package plain
 
 import (
+	"bufio"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -15,17 +16,19 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(writer, "#### scan dump %s ####\n", time.Now().String())
-	fmt.Fprintf(writer, "#### %s\n", string(verStr))
-	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
+	// the first write error sticks and is returned by Flush
+	w := bufio.NewWriter(writer)
+	fmt.Fprintf(w, "#### scan dump %s ####\n", time.Now().String())
+	fmt.Fprintf(w, "#### %s\n", string(verStr))
+	fmt.Fprintf(w, "#### %s\n", strings.Join(ipd.Fields, ","))
 	for _, v := range ipd.Ips {
 		replaceComma(&v)
-		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
+		_, err = fmt.Fprintf(w, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
 		if err != nil {
 			return err
 		}
 	}
-	return nil
+	return w.Flush()
 }
 
 func replaceComma(s *inf.IpRaw) {
-- 
2.43.0


From ad10e7547c31a1244541a04e2c147520aee90531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 11/43] fix: scan pack replaces commas in the dataset itself

---
 db/format/plain/packer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index d6f6e0c..e3a5855 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -22,8 +22,7 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	fmt.Fprintf(w, "#### %s\n", string(verStr))
 	fmt.Fprintf(w, "#### %s\n", strings.Join(ipd.Fields, ","))
 	for _, v := range ipd.Ips {
-		replaceComma(&v)
-		_, err = fmt.Fprintf(w, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
+		_, err = fmt.Fprintf(w, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
 			return err
 		}
@@ -31,8 +30,11 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return w.Flush()
 }
 
-func replaceComma(s *inf.IpRaw) {
-	for i, v := range s.FieldValues {
-		s.FieldValues[i] = strings.Replace(v, ",", "_", -1)
+// replaceComma returns a copy, the values belong to the caller
+func replaceComma(values []string) []string {
+	ret := make([]string, len(values))
+	for i, v := range values {
+		ret[i] = strings.Replace(v, ",", "_", -1)
 	}
+	return ret
 }
-- 
2.43.0


From 2c8eb7a3b0fa4fa00f597d626d1de685d26eb41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 12/43] fix: PackFile replaces its target only by a complete
 file

---
 db/convert/packer.go | 50 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/db/convert/packer.go b/db/convert/packer.go
index 9eb446d..eab745c 100644
--- a/db/convert/packer.go
+++ b/db/convert/packer.go
@@ -2,29 +2,75 @@ package convert
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/format"
 	"github.com/qiniu/uip/db/inf"
 )
 
+// PackFile packs ipData to ipFile. The file is written beside its target and
+// renamed, so that whoever opens ipFile finds a complete database: the previous
+// one as long as packing has not succeeded.
 func PackFile(ipFile string, ipData *inf.IpData) error {
-	file, err := os.Create(ipFile)
+	extend := path.Ext(ipFile)
+	if real, err := filepath.EvalSymlinks(ipFile); err == nil {
+		ipFile = real
+	}
+	info, err := os.Stat(ipFile)
+	if err == nil && !info.Mode().IsRegular() {
+		// a device or pipe
+		file, err := os.OpenFile(ipFile, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		err = PackWriter(extend, ipData, file)
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+		return err
+	}
+	exists := err == nil
+
+	file, err := createBeside(ipFile)
 	if err != nil {
 		return err
 	}
-	extend := path.Ext(ipFile)
 	err = PackWriter(extend, ipData, file)
+	if err == nil && exists {
+		err = file.Chmod(info.Mode().Perm())
+	}
+	if err == nil {
+		err = file.Sync()
+	}
 	if cerr := file.Close(); err == nil {
 		err = cerr
 	}
+	if err == nil {
+		err = os.Rename(file.Name(), ipFile)
+	}
+	if err != nil {
+		os.Remove(file.Name())
+	}
 	return err
 }
 
+// createBeside creates a new file in the directory of ipFile
+func createBeside(ipFile string) (*os.File, error) {
+	for i := 0; ; i++ {
+		name := fmt.Sprintf("%s.tmp%d", ipFile, i)
+		file, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+		if !os.IsExist(err) {
+			return file, err
+		}
+	}
+}
+
 func PackBytes(kind string, ipData *inf.IpData) ([]byte, error) {
 	w := bytes.NewBuffer(nil)
 	err := PackWriter(kind, ipData, w)
-- 
2.43.0


From dac804d3239af2cb4f74c73d0c8c327ee41a4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 13/43] fix: answers share state with the database

---
 db/format/awdb/reader.go  | 2 +-
 db/format/ipdb/querier.go | 4 +++-
 db/format/ipdb/reader.go  | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 96a6619..bddb630 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -303,7 +303,7 @@ func (r *Reader) version() *inf.VersionInfo {
 		Count:     uint32(r.Metadata.NodeCount),
 		Build:     int64(r.Metadata.BuildEpoch),
 		Version:   "ipplus360" + r.Metadata.DatabaseType,
-		Languages: r.Metadata.Languages,
+		Languages: append([]string(nil), r.Metadata.Languages...),
 		ExtraInfo: nil,
 	}
 }
diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 479e596..f98907b 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -45,7 +45,9 @@ func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, e
 	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
-			return node, v, mask, nil
+			// callers own their answers
+			info := *v
+			return node, &info, mask, nil
 		}
 	}
 
diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index d3b44e6..cf6f098 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -26,6 +26,7 @@ import (
 	db2 "github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"net"
+	"sort"
 	"strings"
 	"time"
 	"unsafe"
@@ -283,6 +284,7 @@ func (db *reader) Languages() []string {
 	for k := range db.meta.Languages {
 		ls = append(ls, k)
 	}
+	sort.Strings(ls)
 	return ls
 }
 func (db *reader) HasIPv4() bool {
@@ -307,6 +309,6 @@ func (db *reader) version() *inf.VersionInfo {
 		Build:     db.meta.Build,
 		Version:   version,
 		Languages: db.Languages(),
-		ExtraInfo: db.meta.Extra,
+		ExtraInfo: append([]string(nil), db.meta.Extra...),
 	}
 }
-- 
2.43.0


From 9d7d611b27a002c39116f49091e1bbe8745c6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 14/43] fix: dumping walks both address families

---
 db/field/export/export.go | 82 +++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index d14f448..f7286a0 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -185,6 +185,9 @@ func ParseRule(rule string) inf.Exporter {
 	return ret
 }
 
+// afterMapped is the first address after ::ffff:0:0/96
+var afterMapped = net.ParseIP("::1:0:0:0")
+
 func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter, version *inf.VersionInfo, find inf.Find) (*inf.IpData, error) {
 	var ret inf.IpData
 	var fieldsMap = make([]field.Pair, 0, len(fields))
@@ -195,48 +198,59 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 	}
 	fieldsMap = Select(fieldMap, ret.Fields)
 	ret.Ips = make([]inf.IpRaw, 0, version.Count+1)
-	var marker net.IP
-	if version.IsIpV6() {
-		marker = net.IPv6zero
-	} else {
-		marker = net.IPv4zero
-	}
 
 	var prevInfo []string
-	for {
-		cidr, info, err := find(marker)
-		if err != nil {
-			return nil, err
-		}
-		var values []string
-
-		if ept != nil {
-			values = ept.Export(fieldsMap, info)
-		} else {
-			for _, v := range ret.Fields {
-				infK, ok := fieldMap[v]
-				if !ok {
-					values = append(values, "")
-				} else if f, ok := info[infK]; ok {
-					values = append(values, f)
-				} else {
-					values = append(values, "")
+	walk := func(marker net.IP, ipv6 bool) error {
+		for {
+			if ipv6 && marker.To4() != nil {
+				// looked up as IPv4, not part of the IPv6 address space
+				marker = afterMapped
+			}
+			cidr, info, err := find(marker)
+			if err != nil {
+				return err
+			}
+			var values []string
+
+			if ept != nil {
+				values = ept.Export(fieldsMap, info)
+			} else {
+				for _, v := range ret.Fields {
+					infK, ok := fieldMap[v]
+					if !ok {
+						values = append(values, "")
+					} else if f, ok := info[infK]; ok {
+						values = append(values, f)
+					} else {
+						values = append(values, "")
+					}
 				}
 			}
-		}
 
-		if reflect.DeepEqual(values, prevInfo) {
-			values = prevInfo
-		}
+			if reflect.DeepEqual(values, prevInfo) {
+				values = prevInfo
+			}
+
+			ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
+			last := ipnet.LastIP(cidr)
+			if ipnet.IsAllMask(last) {
+				return nil
+			}
+			marker = ipnet.NextStart(cidr)
 
-		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
-		last := ipnet.LastIP(cidr)
-		if ipnet.IsAllMask(last) {
-			break
+			prevInfo = values
 		}
-		marker = ipnet.NextStart(cidr)
+	}
 
-		prevInfo = values
+	if !version.IsIpV6() {
+		if err := walk(net.IPv4zero, false); err != nil {
+			return nil, err
+		}
+	}
+	if version.HasIpV6() {
+		if err := walk(net.IPv6zero, true); err != nil {
+			return nil, err
+		}
 	}
 
 	return &ret, nil
-- 
2.43.0


From 2c31218252a19d87a85b24f0ffb28752995c0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 15/43] fix: awdb dump loses the AS number

---
 db/format/awdb/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index d889efe..c7c4186 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -124,7 +124,7 @@ var CommonFieldsMap = map[string]string{
 	field.Province:  FieldProvince,
 	field.City:      FieldCity,
 	field.ISP:       FieldISP,
-	field.Asn:       field.Asn,
+	field.Asn:       FieldASNumber,
 	field.Continent: FieldContinent,
 	field.Line:      field.Line,
 }
-- 
2.43.0


From 9d61da4367fbdadbb70e15f65b913f6c1e31779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 16/43] fix: scan pack refuses values it cannot represent

---
 db/format/plain/packer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index e3a5855..2a4c3f0 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -22,6 +23,15 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	fmt.Fprintf(w, "#### %s\n", string(verStr))
 	fmt.Fprintf(w, "#### %s\n", strings.Join(ipd.Fields, ","))
 	for _, v := range ipd.Ips {
+		if len(v.FieldValues) != len(ipd.Fields) {
+			return db.ErrInvalidRecord
+		}
+		for _, f := range v.FieldValues {
+			// would split the line
+			if strings.ContainsAny(f, "\t\r\n") {
+				return db.ErrInvalidRecord
+			}
+		}
 		_, err = fmt.Fprintf(w, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
 			return err
-- 
2.43.0


From c13c091c9a7645d7a7b5f22932c5e23971c6545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 17/43] fix: commands end with a success status on failure

---
 cmd/converter/main.go | 7 ++++---
 cmd/server/main.go    | 8 ++++++--
 cmd/simple/main.go    | 8 ++++++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/cmd/converter/main.go b/cmd/converter/main.go
index 126f5c8..c2c49f6 100644
--- a/cmd/converter/main.go
+++ b/cmd/converter/main.go
@@ -5,6 +5,7 @@ import (
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 	"log"
+	"os"
 	"strings"
 	"time"
 
@@ -30,7 +31,7 @@ func main() {
 		if err != nil {
 			log.Println(err)
 			flag.PrintDefaults()
-			return
+			os.Exit(1)
 		}
 		log.Println("line", lineQ.VersionInfo())
 		f := operate.AttachLineByCidr
@@ -51,7 +52,7 @@ func main() {
 	if err != nil {
 		log.Println(err)
 		flag.PrintDefaults()
-		return
+		os.Exit(1)
 	}
 	log.Println(len(ipData.Ips), ipData.Version, err, time.Since(t0))
 	outputs := strings.Split(*output, ",")
@@ -60,7 +61,7 @@ func main() {
 		if err != nil {
 			log.Println(err)
 			flag.PrintDefaults()
-			return
+			os.Exit(1)
 		}
 	}
 }
diff --git a/cmd/server/main.go b/cmd/server/main.go
index 973fde5..54721f8 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -10,18 +10,22 @@ import (
 )
 
 func main() {
+	if len(os.Args) < 3 {
+		log.Println("usage: server FILE ADDR")
+		os.Exit(2)
+	}
 	f := os.Args[1]
 	addr := os.Args[2]
 
 	q, err := query.NewDb(f)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 	s := server{q}
 	err = s.ListenAndServe(addr)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/cmd/simple/main.go b/cmd/simple/main.go
index 82eeb67..c348b03 100644
--- a/cmd/simple/main.go
+++ b/cmd/simple/main.go
@@ -12,13 +12,17 @@ import (
 )
 
 func main() {
+	if len(os.Args) < 3 {
+		log.Println("usage: simple FILE IP|version")
+		os.Exit(2)
+	}
 	f := os.Args[1]
 	ip := os.Args[2]
 
 	q, err := query.NewDb(f)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 	if strings.HasPrefix(ip, "v") {
 		fmt.Println(q.VersionInfo())
@@ -27,7 +31,7 @@ func main() {
 	i, _, err := q.QueryStr(ip)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 	fmt.Printf("%+v\n", i)
 }
-- 
2.43.0


From cad5aba38f4ba4e6c6439e37343c9d0474b8a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 18/43] fix: text dumpers refuse long lines

---
 db/format/memip/dumper.go | 2 ++
 db/format/plain/dumper.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 947005f..451077c 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -50,6 +50,8 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	// a line may be of any length
+	scanner.Buffer(nil, len(data)+1)
 	for scanner.Scan() {
 		t.lines = append(t.lines, scanner.Text())
 	}
diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index 8f17595..306c140 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -38,6 +38,8 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	t := &traversal{}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	// a line may be of any length
+	scanner.Buffer(nil, len(data)+1)
 	lineOffset := 0
 	for scanner.Scan() {
 		if lineOffset == 0 {
-- 
2.43.0


From 2eaf8895a3e93b0d877f241bd646c2d2c053e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 19/43] fix: bound what an awdb record unfolds into

---
 db/format/awdb/decoder.go | 20 ++++++++++++++++++++
 db/format/awdb/reader.go  |  7 ++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index d15b214..54330ab 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -10,6 +10,9 @@ import (
 
 type decoder struct {
 	buffer []byte
+	// values counts what one record unfolds into. Only a decoder that is not
+	// shared counts.
+	values uint
 }
 
 type dataType int
@@ -38,8 +41,19 @@ const (
 const (
 	// This is the value used in libawdb
 	maximumDataStructureDepth = 512
+	// pointers let few bytes stand for any number of values
+	maximumValues = 1 << 16
 )
 
+// count takes note of further values of the record.
+func (d *decoder) count(values uint) error {
+	if values > maximumValues-d.values {
+		return newInvalidDatabaseError("exceeded maximum number of values in a record; database is likely corrupt")
+	}
+	d.values += values
+	return nil
+}
+
 func (d *decoder) decode(offset uint, result reflect.Value, depth int) (uint, error) {
 	if depth > maximumDataStructureDepth {
 		return 0, newInvalidDatabaseError("exceeded maximum data structure depth; database is likely corrupt")
@@ -303,6 +317,9 @@ func (d *decoder) unmarshalMap(
 	if size > (uint(len(d.buffer))-offset)/2 {
 		return 0, newOffsetError()
 	}
+	if err := d.count(size); err != nil {
+		return 0, err
+	}
 	result = d.indirect(result)
 	switch result.Kind() {
 	default:
@@ -341,6 +358,9 @@ func (d *decoder) unmarshalSlice(
 	if size > uint(len(d.buffer))-offset {
 		return 0, newOffsetError()
 	}
+	if err := d.count(size); err != nil {
+		return 0, err
+	}
 	switch result.Kind() {
 	case reflect.Slice:
 		return d.decodeSlice(size, offset, result, depth)
diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index bddb630..b96cc4a 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -53,7 +53,7 @@ func FromBytes(buffer []byte) (*Reader, error) {
 		return nil, newInvalidDatabaseError("error opening database: invalid aw DB file")
 	}
 
-	metadataDecoder := decoder{metaIn[metadataStart+len(metadataStartMarker):]}
+	metadataDecoder := decoder{buffer: metaIn[metadataStart+len(metadataStartMarker):]}
 
 	var metadata Metadata
 
@@ -80,7 +80,7 @@ func FromBytes(buffer []byte) (*Reader, error) {
 		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
 	}
 	d := decoder{
-		buffer[searchTreeSize+dataSectionSeparatorSize : metadataStart],
+		buffer: buffer[searchTreeSize+dataSectionSeparatorSize : metadataStart],
 	}
 
 	nodeBuffer := buffer[:searchTreeSize]
@@ -226,7 +226,8 @@ func (r *Reader) decode(offset uintptr, result interface{}) error {
 	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return errors.New("result param must be a pointer")
 	}
-	_, err := r.decoder.decode(uint(offset), rv, 0)
+	d := decoder{buffer: r.decoder.buffer}
+	_, err := d.decode(uint(offset), rv, 0)
 	return err
 }
 
-- 
2.43.0


From 206b6b9cdca8a462dc6939f7bf39e1197120c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 20/43] fix: bound the networks dumped from a damaged search
 tree

---
 db/field/export/export.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index f7286a0..9d243e1 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
@@ -199,6 +200,10 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 	fieldsMap = Select(fieldMap, ret.Fields)
 	ret.Ips = make([]inf.IpRaw, 0, version.Count+1)
 
+	// equal parts of the tree may be stored once, but a file in which a few
+	// nodes stand for more networks than this is damaged
+	limit := 1<<14 + 16*uint64(version.Count)
+
 	var prevInfo []string
 	walk := func(marker net.IP, ipv6 bool) error {
 		for {
@@ -206,6 +211,9 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 				// looked up as IPv4, not part of the IPv6 address space
 				marker = afterMapped
 			}
+			if uint64(len(ret.Ips)) > limit {
+				return db.ErrDatabaseError
+			}
 			cidr, info, err := find(marker)
 			if err != nil {
 				return err
-- 
2.43.0


From 644670ed266871e2e5611555d456baf3a8bee268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:58 +0000
Subject: [PATCH 21/43] fix: bound the nodes an awdb iterator visits

---
 db/format/awdb/traverse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 889ba3d..d4fe496 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -16,6 +16,7 @@ type Networks struct {
 	reader   *Reader
 	nodes    []netNode // Nodes we still have to visit.
 	lastNode netNode
+	visited  uint // Nodes visited.
 	err      error
 }
 
@@ -83,6 +84,13 @@ func (n *Networks) Next() bool {
 				n.lastNode = node
 				return true
 			}
+			// Parts of the tree may be stored once for several networks, but
+			// not for any number of them.
+			n.visited++
+			if n.visited > 1<<14+16*n.reader.Metadata.NodeCount {
+				n.err = newInvalidDatabaseError("the aw DB file's search tree is corrupt")
+				return false
+			}
 			ipRight := make(net.IP, len(node.ip))
 			copy(ipRight, node.ip)
 			if len(ipRight) <= int(node.bit>>3) {
-- 
2.43.0


From 5c7a83b28eb9ba6e58a93953295e7ea197368583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 22/43] fix: simple fails when its answer cannot be written

---
 cmd/simple/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/simple/main.go b/cmd/simple/main.go
index c348b03..d0bc967 100644
--- a/cmd/simple/main.go
+++ b/cmd/simple/main.go
@@ -25,7 +25,10 @@ func main() {
 		os.Exit(1)
 	}
 	if strings.HasPrefix(ip, "v") {
-		fmt.Println(q.VersionInfo())
+		if _, err := fmt.Println(q.VersionInfo()); err != nil {
+			log.Println(err)
+			os.Exit(1)
+		}
 		return
 	}
 	i, _, err := q.QueryStr(ip)
@@ -33,5 +36,8 @@ func main() {
 		log.Println(err)
 		os.Exit(1)
 	}
-	fmt.Printf("%+v\n", i)
+	if _, err := fmt.Printf("%+v\n", i); err != nil {
+		log.Println(err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 5c5252ef87b339230993014e6ba4f4e18c6a5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 23/43] fix: memip: refuse IPv6 rows of an IPv4 dataset

---
 db/format/memip/packer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index ca6dac4..3d67475 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
 )
@@ -16,6 +17,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	var prev RangeFields
 	offsets := fieldOffsets(ipd.Fields)
 	for _, ip := range ipd.Ips {
+		if ipd.Version.IsIpV4() && ip.Cidr.IP.To4() == nil {
+			return db.ErrInvalidCIDR
+		}
 		values := covertValues(offsets, ip.FieldValues)
 		if prev.r == nil {
 			prev.r = ipnet.NewRange(ip.Cidr)
-- 
2.43.0


From 008ef127a57247fdf02f1cb32184262d804ee6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 24/43] fix: awdb: a number of the other sign is no value of an
 integer field

---
 db/format/awdb/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 54330ab..6126601 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -294,7 +294,7 @@ func (d *decoder) unmarshalInt32(size uint, offset uint, result reflect.Value) (
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		n := uint64(value)
-		if !result.OverflowUint(n) {
+		if value >= 0 && !result.OverflowUint(n) {
 			result.SetUint(n)
 			return newOffset, nil
 		}
@@ -404,7 +404,7 @@ func (d *decoder) unmarshalUint(size uint, offset uint, result reflect.Value, ui
 	switch result.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		n := int64(value)
-		if !result.OverflowInt(n) {
+		if n >= 0 && !result.OverflowInt(n) {
 			result.SetInt(n)
 			return newOffset, nil
 		}
-- 
2.43.0


From 8128ccbe60cee55852b61e82abcddd03c12dea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 25/43] fix: awdb: map entries share what they hold

---
 db/format/awdb/decoder.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 6126601..63fa034 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -490,8 +490,6 @@ func (d *decoder) decodeMap(
 	mapType := result.Type()
 	keyValue := reflect.New(mapType.Key()).Elem()
 	elemType := mapType.Elem()
-	elemKind := elemType.Kind()
-	var elemValue reflect.Value
 	for i := uint(0); i < size; i++ {
 		var key []byte
 		var err error
@@ -501,10 +499,8 @@ func (d *decoder) decodeMap(
 			return 0, err
 		}
 
-		if !elemValue.IsValid() || elemKind == reflect.Interface {
-			elemValue = reflect.New(elemType).Elem()
-		}
-
+		// what an entry holds is its own
+		elemValue := reflect.New(elemType).Elem()
 		offset, err = d.decode(offset, elemValue, depth)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 39f79866704023438967a74b83e493a5c6dd1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 26/43] fix: awdb: networks of an iteration share the caller's
 address

---
 db/format/awdb/traverse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index d4fe496..2584c9f 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -63,7 +63,9 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 		reader: r,
 		nodes: []netNode{
 			{
-				ip:      ip,
+				// the tree's own copy of the network's address, which may name
+				// a network within one of the database
+				ip:      ip.Mask(net.CIDRMask(bit, len(ip)*8)),
 				bit:     uint(bit),
 				pointer: pointer,
 			},
@@ -125,10 +127,8 @@ func (n *Networks) Network(result interface{}) (*net.IPNet, error) {
 		return nil, err
 	}
 
-	return &net.IPNet{
-		IP:   n.lastNode.ip,
-		Mask: net.CIDRMask(int(n.lastNode.bit), len(n.lastNode.ip)*8),
-	}, nil
+	mask := net.CIDRMask(int(n.lastNode.bit), len(n.lastNode.ip)*8)
+	return &net.IPNet{IP: n.lastNode.ip.Mask(mask), Mask: mask}, nil
 }
 
 // Err returns an error, if any, that was encountered during iteration.
-- 
2.43.0


From 398cdac4ecdaeca4165708ddb71ef4661bf79f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:11 +0000
Subject: [PATCH 27/43] fix: awdb: walk an IPv4 database by IPv4 networks only

---
 db/format/awdb/traverse.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 2584c9f..25ddfde 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -1,6 +1,7 @@
 package awdb
 
 import (
+	"fmt"
 	"net"
 )
 
@@ -51,7 +52,20 @@ func (r *Reader) Networks() *Networks {
 // iterator will iterate over exactly one network, the containing network.
 func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 	ip := network.IP
-	prefixLength, _ := network.Mask.Size()
+	prefixLength, bits := network.Mask.Size()
+
+	if r.Metadata.IPVersion == 4 && len(ip) == net.IPv6len {
+		ip = ip.To4()
+		if bits == 8*net.IPv6len {
+			prefixLength -= 96
+		}
+		if ip == nil || prefixLength < 0 {
+			return &Networks{
+				reader: r,
+				err:    fmt.Errorf("error getting networks within '%s': it is an IPv6 network and the database is IPv4-only", network),
+			}
+		}
+	}
 
 	if r.Metadata.IPVersion == 6 && len(ip) == net.IPv4len {
 		ip = net.IP.To16(ip)
-- 
2.43.0


From 0d7a398a7264ecad3f255492d0eca0167db317f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 28/43] fix: java: asn is not the line

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 4c2e854..7981e9b 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -132,6 +132,7 @@ final class Reader {
                     break;
                 case "asn":
                     info.asn = parts[i];
+                    break;
                 case "line":
                     info.line = parts[i];
                     break;
-- 
2.43.0


From 92cc67842b3ec43686ea6a44af8de17560b075e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 29/43] fix: java: an address without a record is not found

---
 .../java/qiniu/uip/db/NotFoundException.java     |  2 +-
 .../java/qiniu/uip/db/format/ipdb/Reader.java    | 16 +++++-----------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/NotFoundException.java b/java/src/main/java/qiniu/uip/db/NotFoundException.java
index ae13308..8f1ae34 100644
--- a/java/src/main/java/qiniu/uip/db/NotFoundException.java
+++ b/java/src/main/java/qiniu/uip/db/NotFoundException.java
@@ -1,6 +1,6 @@
 package qiniu.uip.db;
 
-public class NotFoundException extends Exception {
+public class NotFoundException extends IPFormatException {
     public NotFoundException(String name) {
         super(name);
     }
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 7981e9b..417b39b 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -96,6 +96,8 @@ final class Reader {
         for (byte[] ip : ipList) {
             try {
                 query(ip, false, true);
+            } catch (NotFoundException e) {
+                // nothing to keep
             } catch (Exception e) {
                 e.printStackTrace();
             }
@@ -204,15 +206,7 @@ final class Reader {
             throw new IPFormatException("ip format error");
         }
 
-        // find node
-        int node = 0;
-        try {
-            node = this.findNode(ip);
-        } catch (NotFoundException nfe) {
-            return 0;
-        }
-
-        return node;
+        return this.findNode(ip);
     }
 
     String[] find(byte[] addr, String language) throws IPFormatException, InvalidDatabaseException {
@@ -273,13 +267,13 @@ final class Reader {
         if (ipv4BitsCache != null && bit == 32) {
             int index = bytesToIndex(binary);
             node = ipv4BitsCache[index];
-            if (node >= this.nodeCount) {
+            if (node > this.nodeCount) {
                 return node;
             }
             i = cacheDepth;
         }
         node = readDepth(node, bit, i, binary);
-        if (node >= this.nodeCount) {
+        if (node > this.nodeCount) {
             return node;
         }
 
-- 
2.43.0


From 9a6c9e33502aff640f645a2604986f2b257e1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 30/43] fix: java: callers own their answers

---
 java/src/main/java/qiniu/uip/db/IpInfo.java        | 14 ++++++++++++++
 .../main/java/qiniu/uip/db/format/ipdb/Reader.java |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/IpInfo.java b/java/src/main/java/qiniu/uip/db/IpInfo.java
index 1a4f5a3..a56a299 100644
--- a/java/src/main/java/qiniu/uip/db/IpInfo.java
+++ b/java/src/main/java/qiniu/uip/db/IpInfo.java
@@ -10,6 +10,20 @@ public final class IpInfo {
     public String continent;
     public String line;
 
+    /** callers own their answers. */
+    public IpInfo copy() {
+        IpInfo info = new IpInfo();
+        info.country = country;
+        info.district = district;
+        info.province = province;
+        info.city = city;
+        info.asn = asn;
+        info.isp = isp;
+        info.continent = continent;
+        info.line = line;
+        return info;
+    }
+
     public String toString() {
         return String.format("country: %s, district: %s, province: %s, city: %s, asn: %s, isp: %s, continent: %s, line: %s", country, district, province, city, asn, isp, continent, line);
     }
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 417b39b..3a7c09c 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -109,7 +109,7 @@ final class Reader {
         if (cache && this.resultCache != null) {
             IpInfo info = this.resultCache.get(node);
             if (info != null) {
-                return info;
+                return info.copy();
             }
         }
         String[] parts = resolveNode(node, "CN");
-- 
2.43.0


From 37b12f5b20170d8c4cb10931adb3e1b253bca7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 31/43] fix: java: columns after the last field do not belong
 to it

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 3a7c09c..d27fd06 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -241,7 +241,11 @@ final class Reader {
         }
 
         final String data = new String(this.data, resolved + 2, size, StandardCharsets.UTF_8);
-        return Arrays.copyOfRange(data.split("\t", this.meta.fields.length * this.meta.languages.size()), off, off + this.meta.fields.length);
+        final String[] values = data.split("\t", -1);
+        if (off < 0 || off > values.length - this.meta.fields.length) {
+            throw new InvalidDatabaseException("database resolve error");
+        }
+        return Arrays.copyOfRange(values, off, off + this.meta.fields.length);
     }
 
     private int readDepth(int node, int depth, int i, byte[] binary) {
-- 
2.43.0


From ff8d40af21dbbbf2385cc02f190c7219832a80f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 32/43] fix: java: addresses may begin with a colon

---
 java/src/main/java/qiniu/uip/db/Query.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/Query.java b/java/src/main/java/qiniu/uip/db/Query.java
index fec5376..1dc4cf7 100644
--- a/java/src/main/java/qiniu/uip/db/Query.java
+++ b/java/src/main/java/qiniu/uip/db/Query.java
@@ -51,7 +51,7 @@ public final class Query {
             throw new IPFormatException("ip is empty");
         }
 
-        if (addr.indexOf(":") > 0) {
+        if (addr.indexOf(":") >= 0) {
             ipv = IPAddress.textToNumericFormatV6(addr);
             if (ipv == null) {
                 throw new IPFormatException("ipv6 format error");
-- 
2.43.0


From cb0696fe6061f6d1a508c395b40f17e32f5369ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 33/43] fix: java: the metadata is UTF-8

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index d27fd06..bdc02e8 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -41,7 +41,7 @@ final class Reader {
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
 
-            MetaData meta = Json.parseObject(new String(metaBytes), MetaData.class);
+            MetaData meta = Json.parseObject(new String(metaBytes, StandardCharsets.UTF_8), MetaData.class);
 
             this.nodeCount = meta.node_count;
             this.meta = meta;
-- 
2.43.0


From fbdcff7769ee6a4712ad637c2cb31d27a2459856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 34/43] fix: java: build times after January 2038

---
 java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java | 2 +-
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java b/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java
index c23cfb5..a124fc8 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java
@@ -4,7 +4,7 @@ import java.util.Map;
 
 @SuppressWarnings("checkstyle:MemberName")
 public final class MetaData {
-    public int build;
+    public long build;
     public int ip_version;
     public int node_count;
     public Map<String, Integer> languages;
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index bdc02e8..e0162df 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -303,7 +303,7 @@ final class Reader {
         return (this.meta.ip_version & 0x02) == 0x02;
     }
 
-    int getBuildUTCTime() {
+    long getBuildUTCTime() {
         return this.meta.build;
     }
 
-- 
2.43.0


From 123ef6012d43172dc1960a3efa465a917b730760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 35/43] fix: java: the 16-byte form of an IPv4 address

---
 .../main/java/qiniu/uip/db/format/ipdb/Reader.java | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index e0162df..b390585 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -193,7 +193,21 @@ final class Reader {
         }
     }
 
+    /** the IPv4 address in an IPv4-mapped one. */
+    private static byte[] unmap(byte[] ip) {
+        if (ip.length != 16 || ip[10] != (byte) 0xFF || ip[11] != (byte) 0xFF) {
+            return ip;
+        }
+        for (int i = 0; i < 10; i++) {
+            if (ip[i] != 0) {
+                return ip;
+            }
+        }
+        return Arrays.copyOfRange(ip, 12, 16);
+    }
+
     int find0(byte[] ip) throws IPFormatException, InvalidDatabaseException {
+        ip = unmap(ip);
         if (ip.length == 16) {
             if (!isIPv6()) {
                 throw new IPFormatException("no support ipv6");
-- 
2.43.0


From ff49025a4900d4a5745f63396c3672be06696c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 36/43] fix: java: damaged databases are refused

---
 .../java/qiniu/uip/db/format/ipdb/Reader.java | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index b390585..3cb016b 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -37,6 +37,10 @@ final class Reader {
                 this.data[3]
         );
 
+        if (metaLength > this.fileSize - 4) {
+            throw new InvalidDatabaseException("database file size error");
+        }
+
         try {
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
@@ -49,9 +53,16 @@ final class Reader {
             throw new InvalidDatabaseException(e.getMessage());
         }
 
-        if ((meta.total_size + Long.valueOf(metaLength).intValue() + 4) != this.data.length) {
+        if (meta.total_size + metaLength + 4 != this.data.length) {
             throw new InvalidDatabaseException("database file size error");
         }
+        // the search reads any of the nodes
+        if (meta.node_count < 0 || meta.node_count > meta.total_size / 8) {
+            throw new InvalidDatabaseException("database meta data error");
+        }
+        if (meta.fields == null || meta.languages == null || Arrays.asList(meta.fields).contains(null)) {
+            throw new InvalidDatabaseException("database meta data error");
+        }
 
         this.data = Arrays.copyOfRange(this.data, Long.valueOf(metaLength).intValue() + 4, this.fileSize);
 
@@ -237,10 +248,11 @@ final class Reader {
             return null;
         }
 
-        final int resolved = node - this.nodeCount + this.nodeCount * 8;
-        if (resolved >= this.fileSize) {
+        final long begin = (long) node - this.nodeCount + this.nodeCount * 8L;
+        if (begin + 2 > this.data.length) {
             throw new InvalidDatabaseException("database resolve error");
         }
+        final int resolved = (int) begin;
 
         byte b = 0;
         int size = Long.valueOf(bytesToLong(
@@ -301,12 +313,13 @@ final class Reader {
     private int readNode(int node, int index) {
         int off = node * 8 + index * 4;
 
-        return Long.valueOf(bytesToLong(
+        // no database is so large that one beyond the range of an int is valid
+        return (int) Math.min(Integer.MAX_VALUE, bytesToLong(
                 this.data[off],
                 this.data[off + 1],
                 this.data[off + 2],
                 this.data[off + 3]
-        )).intValue();
+        ));
     }
 
     boolean isIPv4() {
-- 
2.43.0


From b3cf02420fcd299a651bc5b8ddd0976693852489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 37/43] fix: rust: a record's columns are those of the language

---
 rust/src/formats/ipdb/reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index ad9b3ff..f685a88 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -193,7 +193,7 @@ impl Reader{
         let off = self.meta.languages.get(lang);
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
-            Some(_) => {
+            Some(&off) => {
                 let resolved = node - self.node_count + self.node_count * 8;
                 if resolved >= self.file_size {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
@@ -207,9 +207,13 @@ impl Reader{
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
                 let str = String::from_utf8_lossy(&self.data[resolved  + 2..resolved  + 2 + size ]);
-                let a = str.split("\t");
-                let r = a.map(|i| i.to_string()).collect();
-                Ok(r)
+                let values: Vec<String> = str.split("\t").map(|i| i.to_string()).collect();
+                let n = self.meta.fields.len();
+                if off < 0 || values.len() < n || off as usize > values.len() - n {
+                    return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
+                }
+                let off = off as usize;
+                Ok(values[off..off + n].to_vec())
             }
         }
     }
-- 
2.43.0


From aad08bb29d9b6bf69b0e3f3de503a0cda4862a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 38/43] fix: rust: an address without a record is not found

---
 rust/src/formats/ipdb/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index f685a88..86a7d63 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -228,13 +228,13 @@ impl Reader{
         if self.ipv4_bits_cache.len()>0 && bit == 32 {
             let index = Self::bytes_to_index(b);
             node = self.ipv4_bits_cache[index as usize];
-            if node >= self.node_count {
+            if node > self.node_count {
                 return Ok(node);
             }
             i = CACHE_DEPTH;
         }
         node = self.read_depth(node, bit as i32, i, b);
-        if node >= self.node_count {
+        if node > self.node_count {
             return Ok(node);
         }
 
-- 
2.43.0


From 2b9f419f00dcd27d264f2b82fca594eeecde4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 39/43] fix: rust: keep continents that are no known code

---
 rust/src/formats/ipdb/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 86a7d63..26ad179 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -165,7 +165,7 @@ impl Reader{
                         "AF" => info.continent = "非洲".to_string(),
                         "OC" => info.continent = "大洋洲".to_string(),
                         "AN" => info.continent = "南极洲".to_string(),
-                        _ => {}
+                        s => info.continent = s.to_string(),
                     }
                 },
                 _ => {}
-- 
2.43.0


From 26bec9ac2b59afcf2a8c51461477a7c9bbdc8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 40/43] fix: rust: the 16-byte form of an IPv4 address

---
 rust/src/formats/ipdb/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 26ad179..d26a941 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -175,6 +175,8 @@ impl Reader{
     }
 
     fn find0(&self, ip: &[u8]) -> Result<i32> {
+        // the IPv4 address in an IPv4-mapped one
+        let ip = if ip.len() == 16 && ip[..10] == [0; 10] && ip[10..12] == [0xFF; 2] { &ip[12..] } else { ip };
         if ip.len() == 16 {
             if !self.is_ipv6() {
                 return Err(Error::new(ErrorKind::InvalidData, "no support ipv6"));
-- 
2.43.0


From b5b5d29a293e23250c6190a35133163252ee38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 41/43] fix: rust: damaged databases are refused

---
 rust/src/formats/ipdb/reader.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index d26a941..29b8a72 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -28,11 +28,11 @@ impl MetaData {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < 4"));
         }
 
-        let meta_size = BigEndian::read_i32(&buf[0..4]) as usize;
-        let end = meta_size + 4;
-        if buf.len() < end {
+        let meta_size = BigEndian::read_u32(&buf[0..4]) as usize;
+        if buf.len() - 4 < meta_size {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < meta_size"));
         }
+        let end = meta_size + 4;
         let v:serde_json::Result<MetaData> = serde_json::from_slice(&buf[4..end]);
         return match v {
             Ok(mut m) => {
@@ -50,7 +50,6 @@ const CACHE_DEPTH: i32 = 12;
 
 pub struct Reader {
     pub meta: MetaData,
-    file_size: i32,
     node_count: i32,
     data: Vec<u8>,
     v4_offset: i32,
@@ -61,13 +60,16 @@ pub struct Reader {
 impl Reader{
     pub fn new(bytes: &[u8]) -> Result<Reader> {
         let m = MetaData::new(&bytes)?;
-        if m.total_size + m.meta_size as i32 +4 != bytes.len() as i32 {
+        if m.total_size as i64 + m.meta_size as i64 + 4 != bytes.len() as i64 {
             return Err(Error::new(ErrorKind::InvalidData, "invalid data length"));
         }
+        // the search reads any of the nodes
+        if m.node_count < 0 || m.node_count > m.total_size / 8 {
+            return Err(Error::new(ErrorKind::InvalidData, "invalid node count"));
+        }
         let data = (&bytes[m.meta_size + 4..]).to_vec();
 
         let mut reader = Reader {
-            file_size: bytes.len() as i32,
             node_count: m.node_count,
             v4_offset: 0,
             ipv4_bits_cache: Vec::with_capacity(1<<CACHE_DEPTH),
@@ -78,14 +80,14 @@ impl Reader{
         if reader.is_ipv4() {
             let mut node = 0;
             for i in 0..96 {
+                if node >= reader.node_count {
+                    break;
+                }
                 if i >= 80 {
                     node = reader.read_node(node, 1);
                 } else {
                     node = reader.read_node(node, 0);
                 }
-                if node >= reader.node_count {
-                    break;
-                }
             }
             reader.v4_offset = node;
             reader.init_cache()
@@ -97,7 +99,8 @@ impl Reader{
 
     fn read_node(&self, node: i32, index:i32) -> i32 {
         let off = node * 8 + index * 4;
-        BigEndian::read_i32(&self.data[off as usize..off as usize + 4])
+        // no database is so large that a node beyond the range of an i32 is valid
+        BigEndian::read_u32(&self.data[off as usize..off as usize + 4]).min(i32::MAX as u32) as i32
     }
 
     fn init_cache(&mut self) {
@@ -196,13 +199,11 @@ impl Reader{
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
             Some(&off) => {
-                let resolved = node - self.node_count + self.node_count * 8;
-                if resolved >= self.file_size {
+                let resolved = node as usize - self.node_count as usize + self.node_count as usize * 8;
+                if resolved + 2 > self.data.len() {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
 
-                let resolved: usize = resolved as usize;
-
                 let size = BigEndian::read_u16(&self.data[resolved ..resolved + 2]) as usize;
 
                 if self.data.len() < resolved + 2 + size {
-- 
2.43.0


From fbcce6c021f41c7906c5b31f7ed0df0eb2ed0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 42/43] fix: rust: the version of a database without a name

---
 rust/src/formats/ipdb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb.rs b/rust/src/formats/ipdb.rs
index 3ac2322..82c8007 100644
--- a/rust/src/formats/ipdb.rs
+++ b/rust/src/formats/ipdb.rs
@@ -40,8 +40,8 @@ impl Query for Ipdb {
             count: self.reader.meta.node_count,
             build: self.reader.meta.build,
             version: match &self.reader.meta.version {
-                None => format!("ipip.net-{}", self.reader.meta.build),
-                Some(s) => s.to_string(),
+                Some(s) if !s.is_empty() => s.to_string(),
+                _ => format!("ipip.net-{}", self.reader.meta.build),
             },
             languages: vec!["CN".into()],
             extra_info: self.reader.meta.extra.clone(),
-- 
2.43.0


From 37bfabf8dc531498c423fe43750e054b81e0caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 43/43] fix: bound what all networks of an awdb dump unfold
 into

---
 db/format/awdb/dumper.go | 27 +++++++++++++++++++--------
 db/format/awdb/reader.go | 26 +++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index e4d02a6..8ab754e 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -48,7 +48,7 @@ func NewDumper(data []byte) (tRet *traversal, err error) {
 
 func (t *traversal) check() error {
 	if t.versionInfo().HasIpV4() {
-		r, m, err := t.find(net.ParseIP("8.8.8.8"))
+		r, m, _, err := t.find(net.ParseIP("8.8.8.8"))
 		if err != nil {
 			return err
 		}
@@ -58,24 +58,35 @@ func (t *traversal) check() error {
 }
 
 func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
-	return export.BuildIPData(CommonFieldsMap, Fields, exporter, t.versionInfo(), t.find)
+	// Networks share records, but a file whose networks unfold into more
+	// values than this is damaged.
+	limit := 1<<18 + 256*uint(len(t.Data))
+	var values uint
+	find := func(ip net.IP) (*net.IPNet, map[string]string, error) {
+		ipNet, data, n, err := t.find(ip)
+		if values += n; values > limit {
+			return nil, nil, newInvalidDatabaseError("exceeded maximum number of values in all networks; database is likely corrupt")
+		}
+		return ipNet, data, err
+	}
+	return export.BuildIPData(CommonFieldsMap, Fields, exporter, t.versionInfo(), find)
 }
 
-func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
+func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, uint, error) {
 	var record interface{}
-	ipNet, ok, err := t.reader.LookupNetwork(ip, &record)
+	ipNet, ok, values, err := t.reader.lookupNetwork(ip, &record)
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, values, err
 	}
 	if !ok {
-		return nil, nil, db.ErrDataNotExists
+		return nil, nil, values, db.ErrDataNotExists
 	}
 
 	data, err := textFields(record)
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, values, err
 	}
-	return ipNet, data, nil
+	return ipNet, data, values, nil
 }
 
 func (t *traversal) versionInfo() *inf.VersionInfo {
diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index b96cc4a..12e8952 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -151,17 +151,28 @@ func (r *Reader) Lookup(ip net.IP, result interface{}) error {
 // UnmarshalTypeError is returned. If the database is invalid or otherwise
 // cannot be read, an InvalidDatabaseError is returned.
 func (r *Reader) LookupNetwork(ip net.IP, result interface{}) (network *net.IPNet, ok bool, err error) {
+	network, ok, _, err = r.lookupNetwork(ip, result)
+	return network, ok, err
+}
+
+// lookupNetwork also tells how many values the record unfolds into.
+func (r *Reader) lookupNetwork(ip net.IP, result interface{}) (network *net.IPNet, ok bool, values uint, err error) {
 	if r.buffer == nil {
-		return nil, false, errors.New("cannot call Lookup on a closed database")
+		return nil, false, 0, errors.New("cannot call Lookup on a closed database")
 	}
 	pointer, prefixLength, ip, err := r.lookupPointer(ip)
 
 	network = r.cidr(ip, prefixLength)
 	if pointer == 0 || err != nil {
-		return network, false, err
+		return network, false, 0, err
 	}
 
-	return network, true, r.retrieveData(pointer, result)
+	offset, err := r.resolveDataPointer(pointer)
+	if err != nil {
+		return network, true, 0, err
+	}
+	values, err = r.decodeValues(offset, result)
+	return network, true, values, err
 }
 
 // LookupOffset maps an argument net.IP to a corresponding record offset in the
@@ -222,13 +233,18 @@ func (r *Reader) Decode(offset uintptr, result interface{}) error {
 }
 
 func (r *Reader) decode(offset uintptr, result interface{}) error {
+	_, err := r.decodeValues(offset, result)
+	return err
+}
+
+func (r *Reader) decodeValues(offset uintptr, result interface{}) (uint, error) {
 	rv := reflect.ValueOf(result)
 	if rv.Kind() != reflect.Ptr || rv.IsNil() {
-		return errors.New("result param must be a pointer")
+		return 0, errors.New("result param must be a pointer")
 	}
 	d := decoder{buffer: r.decoder.buffer}
 	_, err := d.decode(uint(offset), rv, 0)
-	return err
+	return d.values, err
 }
 
 func (r *Reader) lookupPointer(ip net.IP) (uint, int, net.IP, error) {
-- 
2.43.0

