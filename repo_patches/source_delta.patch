From 0cb90a8bb685b26d0732add3c91038e153f5e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 01/18] fix: LRUCache.Get reorders the pages under the read
 lock and hands out a pointer into the page

---
 cache/LRU.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..4e2ad83 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,11 +26,13 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	// a lookup reorders the pages, so it needs the write lock
+	l.Lock()
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
-		return &elem.Value.(*Page[T]).value, true
+		value := elem.Value.(*Page[T]).value
+		return &value, true
 	}
 	return nil, false
 }
-- 
2.43.0


From 4f845c1fa706e8ff727f1bb08e107ce036e57faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 02/18] fix: LRUCache.Put panics when the capacity is not
 positive

---
 cache/LRU.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/LRU.go b/cache/LRU.go
index 4e2ad83..773aee0 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -40,6 +40,9 @@ func (l *LRUCache[T]) Get(key string) (*T, bool) {
 func (l *LRUCache[T]) Put(key string, value T) {
 	l.Lock()
 	defer l.Unlock()
+	if l.capacity <= 0 {
+		return
+	}
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
 		elem.Value.(*Page[T]).value = value
-- 
2.43.0


From 3c64ac6ab19c7bfd476190d186193e93416abc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 03/18] fix: SyncMap never publishes a put, and its writer
 would let old values win over new ones

---
 cache/Map.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..3ae5a12 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -29,7 +29,7 @@ func NewSyncMap[T any]() *SyncMap[T] {
 		Ch:   make(chan TransferData[T], 1000),
 	}
 
-	//go i.writer()
+	go i.writer()
 	return i
 }
 
@@ -63,7 +63,9 @@ func (i *SyncMap[T]) writer() {
 
 			i.RLock()
 			for key, value := range i.Data {
-				bufferCopy[key] = value
+				if _, ok := bufferCopy[key]; !ok {
+					bufferCopy[key] = value
+				}
 			}
 			i.RUnlock()
 
-- 
2.43.0


From 502ddc0215529b80504dc7a6f26a99d53b1544c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 04/18] fix: SecureSaveFile leaves a moment without the file,
 and its helper names clash with other files

---
 file/File.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..1c60d46 100644
--- a/file/File.go
+++ b/file/File.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/gzip"
 	"fmt"
+	"github.com/google/uuid"
 	"io"
 	"log"
 	"os"
@@ -135,32 +136,19 @@ func ListDirectories(path string) []string {
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
+	//a name of its own, which no other file has
+	tempPath := filepath.Join(path, "."+uuid.New().String())
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
+	//replaces the current file, if any, in one step
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
-	}
-
 	return nil
 }
-- 
2.43.0


From 8fa4474c2620c9c8aafa0d45a448ec6e5502838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 05/18] fix: a half-written index fragment can be read by a
 merge or left behind by a crash

---
 storage/DiskIO.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..64a0f48 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -357,8 +357,13 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 
 				tempFile := uuid.New().String()
 				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+				//the merge reads whatever it finds in the temp folder, so a fragment gets there only when complete
+				newPath := filepath.Join(d.RootFolder, fieldName, "."+tempFile)
+				err := file.SaveFileOnDisk(newPath, file.CompressData(buffer))
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				err = file.RenameFile(newPath, path)
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From a3998a3f2540ad11908d8c5d14b81de57bca58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 06/18] fix: each flush of per-term counts drops the counts of
 every term it does not contain

---
 storage/DiskIO.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 64a0f48..8929993 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -28,15 +28,27 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 		if !file.Exists(path) {
 			continue
 		}
-		buf, err := file.ReadFileOnDisk(path)
+		termSize, err := loadNumberFieldTerm(path)
 		if err != nil {
 			return nil, err
 		}
-		numberFieldTerm[field] = DeserializeNumberFieldTerm(file.DecompressData(buf))
+		numberFieldTerm[field] = termSize
 	}
 	return numberFieldTerm, nil
 }
 
+// loadNumberFieldTerm returns an empty map when there is no such file
+func loadNumberFieldTerm(path string) (map[string]int, error) {
+	if !file.Exists(path) {
+		return make(map[string]int), nil
+	}
+	buf, err := file.ReadFileOnDisk(path)
+	if err != nil {
+		return nil, err
+	}
+	return DeserializeNumberFieldTerm(file.DecompressData(buf)), nil
+}
+
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	fieldSize := make(map[string]int)
@@ -249,8 +261,16 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeNumberFieldTerm(termSize)
-				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
+				allTermSize, err := loadNumberFieldTerm(filepath.Join(path, file.NumberFieldTerm))
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				for term, size := range termSize {
+					allTermSize[term] = size
+				}
+
+				buf := SerializeNumberFieldTerm(allTermSize)
+				err = file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From d8bb74312455dc2fb7aaeb2c23fb24eadf4f8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 07/18] fix: both stores are read and written concurrently
 without synchronisation and share their maps with callers

---
 model/Field.go         |  9 +++++++++
 model/Set.go           |  9 +++++++++
 storage/DiskStorage.go | 28 +++++++++++++++++++++++++---
 storage/Memory.go      | 30 +++++++++++++++++++++++++++---
 storage/Storage.go     | 12 ++++++++++++
 5 files changed, 82 insertions(+), 6 deletions(-)

diff --git a/model/Field.go b/model/Field.go
index 6b48f32..af7d09e 100644
--- a/model/Field.go
+++ b/model/Field.go
@@ -6,3 +6,12 @@ type Field struct {
 	TF     map[string]int
 }
 
+// Clone returns a copy of the field that shares nothing with it.
+func (f Field) Clone() Field {
+	tf := make(map[string]int, len(f.TF))
+	for term, frequency := range f.TF {
+		tf[term] = frequency
+	}
+	f.TF = tf
+	return f
+}
diff --git a/model/Set.go b/model/Set.go
index 2f0a176..d3a9afa 100644
--- a/model/Set.go
+++ b/model/Set.go
@@ -14,6 +14,15 @@ func (s *Set) GetData() map[string]bool {
 	return s.data
 }
 
+// Clone returns an independent copy of the set.
+func (s *Set) Clone() *Set {
+	c := NewSet()
+	for element := range s.data {
+		c.data[element] = true
+	}
+	return c
+}
+
 func (s *Set) Add(element string) {
 	s.data[element] = true
 }
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..b485892 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -87,6 +87,8 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -95,21 +97,29 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
-	return d.index[fieldName]
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+	return cloneIndexField(d.index[fieldName])
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Clone(), true
 		}
 	}
 	return model.Set{}, false
@@ -117,6 +127,8 @@ func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
 
 func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model.Field {
 
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
 		if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id); ok {
@@ -189,6 +201,12 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateIndex(documentId, field)
+}
+
+func (d *Disk) updateIndex(documentId string, field model.Field) {
 
 	indexField := d.index[field.Name]
 	if indexField == nil {
@@ -221,8 +239,12 @@ func (d *Disk) UpdateIndex(documentId string, field model.Field) {
 
 func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
 
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	field = field.Clone()
+
 	d.UpdateFieldSizeLength(field)
-	d.UpdateIndex(documentId, field)
+	d.updateIndex(documentId, field)
 	d.UpdateNumberFieldTerm(field)
 	d.UpdateFieldDocument(documentId, field)
 }
diff --git a/storage/Memory.go b/storage/Memory.go
index 3310ee5..5e6e103 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"sync"
 )
 
 type Memory struct {
@@ -10,9 +11,16 @@ type Memory struct {
 	FieldLength     map[string]int
 	FieldSize       map[string]int
 	NumberFieldTerm map[string]map[string]int
+	mu              sync.RWMutex
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateIndex(documentId, field)
+}
+
+func (m *Memory) updateIndex(documentId string, field model.Field) {
 	m.FieldSize[field.Name] += 1
 	m.FieldLength[field.Name] += field.Length
 
@@ -46,6 +54,8 @@ func NewMemory() Storage {
 }
 
 func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = m.NumberFieldTerm[fieldName][term]
@@ -54,10 +64,14 @@ func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string
 }
 
 func (m *Memory) GetFieldLength(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldLength[fieldName]
 }
 
 func (m *Memory) GetFieldSize(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldSize[fieldName]
 }
 
@@ -66,13 +80,17 @@ func (m *Memory) GetFieldDocumentTest(documentId string) map[string]model.Field
 }
 
 func (m *Memory) GetIndex(fieldName string) map[string]*model.Set {
-	return m.Index[fieldName]
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	return cloneIndexField(m.Index[fieldName])
 }
 
 func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	if indexField, ok := m.Index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return *set.Clone(), true
 		}
 	}
 	return model.Set{}, false
@@ -80,6 +98,8 @@ func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
 
 func (m *Memory) GetFields(documentId []string, fieldName string) map[string]model.Field {
 
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
 		if fieldDocument, ok := m.FieldDocument[id]; ok {
@@ -94,9 +114,13 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	field = field.Clone()
+
 	m.createFieldDocument(documentId, field)
 
-	m.UpdateIndex(documentId, field)
+	m.updateIndex(documentId, field)
 
 	//numérico de campos que possui o termo
 	fieldTerm := m.NumberFieldTerm[field.Name]
diff --git a/storage/Storage.go b/storage/Storage.go
index 795eb20..909da08 100644
--- a/storage/Storage.go
+++ b/storage/Storage.go
@@ -20,3 +20,15 @@ type Storage interface {
 	//sds
 	UpdateIndex(documentId string, field model.Field)
 }
+
+// cloneIndexField copies the postings of a field, so that the caller can use them while documents are saved.
+func cloneIndexField(indexField map[string]*model.Set) map[string]*model.Set {
+	if indexField == nil {
+		return nil
+	}
+	clone := make(map[string]*model.Set, len(indexField))
+	for term, set := range indexField {
+		clone[term] = set.Clone()
+	}
+	return clone
+}
-- 
2.43.0


From 178b578f86ff80b61d1e000de04e95bd76bae029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 08/18] fix: fields of a document evicted from the cache before
 its flush are invisible, and saving another field drops them

---
 storage/DiskIO.go      | 14 ++++++----
 storage/DiskStorage.go | 62 ++++++++++++++++++++++++++++++++----------
 2 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 8929993..b191ec8 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -180,11 +180,12 @@ type NumberFieldTermTransferData struct {
 type DocumentFieldTransferData struct {
 	DocumentId string
 	Field      map[string]model.Field
+	Saved      func() //called when the fields are on disk
 }
 
 type BufferFieldDocument struct {
 	sync.Mutex
-	data map[string]map[string]model.Field
+	data map[string]DocumentFieldTransferData
 }
 
 type bufferNumberFieldTerm struct {
@@ -201,7 +202,7 @@ type bufferFieldLengthSize struct {
 func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 
 	localBuffer := BufferFieldDocument{
-		data: make(map[string]map[string]model.Field),
+		data: make(map[string]DocumentFieldTransferData),
 	}
 
 	ticker := time.NewTicker(10 * time.Second)
@@ -211,19 +212,22 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 		select {
 		case fieldDocument := <-data:
 			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
+			localBuffer.data[fieldDocument.DocumentId] = fieldDocument
 			localBuffer.Unlock()
 		case <-ticker.C:
 			localBuffer.Lock()
-			for documentId, fieldMap := range localBuffer.data {
+			for documentId, fieldDocument := range localBuffer.data {
 				path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeFieldMap(fieldMap)
+				buf := SerializeFieldMap(fieldDocument.Field)
 				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
+				if fieldDocument.Saved != nil {
+					fieldDocument.Saved()
+				}
 				delete(localBuffer.data, documentId)
 			}
 			localBuffer.Unlock()
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index b485892..534a13f 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -20,6 +20,12 @@ type Disk struct {
 	fieldDocumentCache *cache.LRUCache[map[string]model.Field] //*cache.RCU[map[string]model.Field]
 	diskIO             DiskIO
 	mu                 sync.RWMutex
+	pending            map[string]*pendingDocument //documents whose latest fields are not on disk yet
+	pendingMu          sync.Mutex
+}
+
+type pendingDocument struct {
+	fields map[string]model.Field
 }
 
 func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
@@ -64,6 +70,7 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 		numberFieldTerm:    numberFieldTerm,
 		fieldDocumentCache: cache.NewLRUCache[map[string]model.Field](cacheSize), //cache.NewCacheRCU[map[string]model.Field]()
 		mu:                 sync.RWMutex{},
+		pending:            make(map[string]*pendingDocument),
 	}
 
 	go diskIO.SaveFieldSizeLengthOnDisc(fieldCh)
@@ -131,18 +138,10 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 	defer d.mu.RUnlock()
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
-		if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id); ok {
-			fieldDocument := *fieldDocumentPtr
+		if fieldDocument, ok := d.loadFieldDocument(id); ok {
 			if field, ok := fieldDocument[fieldName]; ok {
 				fields[id] = field
 			}
-		} else {
-			if fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(id); ok {
-				if field, ok := fieldDocument[fieldName]; ok {
-					fields[id] = field
-				}
-				d.fieldDocumentCache.Put(id, fieldDocument)
-			}
 		}
 	}
 
@@ -150,6 +149,27 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 
 }
 
+// loadFieldDocument returns the current fields of a document; the map is shared and must not be changed
+func (d *Disk) loadFieldDocument(id string) (map[string]model.Field, bool) {
+	if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id); ok {
+		return *fieldDocumentPtr, true
+	}
+
+	d.pendingMu.Lock()
+	pending, ok := d.pending[id]
+	d.pendingMu.Unlock()
+	if ok {
+		d.fieldDocumentCache.Put(id, pending.fields)
+		return pending.fields, true
+	}
+
+	fieldDocument, ok := d.diskIO.LoadFieldDocumentOnHD(id)
+	if ok {
+		d.fieldDocumentCache.Put(id, fieldDocument)
+	}
+	return fieldDocument, ok
+}
+
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
@@ -182,20 +202,32 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
-	var fieldIndex map[string]model.Field
-
-	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
-	} else {
-		fieldIndex = make(map[string]model.Field)
+	//the previous fields may be in use by a reader or by the flush, so they are copied
+	fieldIndex := make(map[string]model.Field)
+	if current, ok := d.loadFieldDocument(documentId); ok {
+		for name, f := range current {
+			fieldIndex[name] = f
+		}
 	}
 
 	fieldIndex[field.Name] = field
 	d.fieldDocumentCache.Put(documentId, fieldIndex)
 
+	pending := &pendingDocument{fields: fieldIndex}
+	d.pendingMu.Lock()
+	d.pending[documentId] = pending
+	d.pendingMu.Unlock()
+
 	d.documentFieldCh <- DocumentFieldTransferData{
 		DocumentId: documentId,
 		Field:      fieldIndex,
+		Saved: func() {
+			d.pendingMu.Lock()
+			defer d.pendingMu.Unlock()
+			if d.pending[documentId] == pending {
+				delete(d.pending, documentId)
+			}
+		},
 	}
 
 }
-- 
2.43.0


From 74ca59fd9a90510d2903d3bc44dfbc1758cb78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 09/18] fix: saving a field again counts the document twice and
 keeps it under terms it no longer has

---
 index/InvertedIndex.go | 15 +++++++++++++--
 storage/DiskStorage.go | 28 ++++++++++++++++++++++++++++
 storage/Memory.go      | 14 ++++++++++++++
 storage/Storage.go     | 10 ++++++++++
 4 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index cf4c37d..ccd27dd 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -108,8 +108,10 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 	fieldDocuments := make(map[string]model.Field)
 	for fieldDocument := range fieldCh {
 		for documentId, field := range fieldDocument {
-			fieldDocuments[documentId] = field
-
+			//the postings on disk may still have documents whose field no longer contains the term
+			if containsAny(field, terms) {
+				fieldDocuments[documentId] = field
+			}
 		}
 	}
 
@@ -120,6 +122,15 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 	return result
 }
 
+func containsAny(field model.Field, terms []string) bool {
+	for _, term := range terms {
+		if _, ok := field.TF[term]; ok {
+			return true
+		}
+	}
+	return false
+}
+
 func (i *InvertedIndex) IndexDocument(documentId string, document model.NormalizedDocument) {
 
 	for _, field := range document.Fields {
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 534a13f..5e6dece 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -275,8 +275,36 @@ func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
 	defer d.mu.Unlock()
 	field = field.Clone()
 
+	if current, ok := d.loadFieldDocument(documentId); ok {
+		if previous, ok := current[field.Name]; ok {
+			d.removePrevious(documentId, previous)
+		}
+	}
+
 	d.UpdateFieldSizeLength(field)
 	d.updateIndex(documentId, field)
 	d.UpdateNumberFieldTerm(field)
 	d.UpdateFieldDocument(documentId, field)
 }
+
+// removePrevious takes back what saving an earlier version of the field has added. On disk, the postings of terms that
+// the new version lacks remain until the index is rebuilt; searches check the stored fields.
+func (d *Disk) removePrevious(documentId string, previous model.Field) {
+	//after a crash, the statistics may lack what was saved last
+	if d.fieldSize[previous.Name] > 0 && d.fieldLength[previous.Name] >= previous.Length {
+		d.fieldSize[previous.Name] -= 1
+		d.fieldLength[previous.Name] -= previous.Length
+	}
+	for term := range previous.TF {
+		removePosting(d.index[previous.Name], term, documentId)
+		if d.numberFieldTerm[previous.Name][term] == 0 {
+			continue
+		}
+		d.numberFieldTerm[previous.Name][term] -= 1
+		d.numberFieldTermCh <- NumberFieldTermTransferData{
+			FieldName: previous.Name,
+			Term:      term,
+			Size:      d.numberFieldTerm[previous.Name][term],
+		}
+	}
+}
diff --git a/storage/Memory.go b/storage/Memory.go
index 5e6e103..08504c2 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -118,6 +118,10 @@ func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
 	defer m.mu.Unlock()
 	field = field.Clone()
 
+	if previous, ok := m.FieldDocument[documentId][field.Name]; ok {
+		m.removePrevious(documentId, previous)
+	}
+
 	m.createFieldDocument(documentId, field)
 
 	m.updateIndex(documentId, field)
@@ -135,6 +139,16 @@ func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
 
 }
 
+// removePrevious takes back what saving an earlier version of the field has added
+func (m *Memory) removePrevious(documentId string, previous model.Field) {
+	m.FieldSize[previous.Name] -= 1
+	m.FieldLength[previous.Name] -= previous.Length
+	for term := range previous.TF {
+		m.NumberFieldTerm[previous.Name][term] -= 1
+		removePosting(m.Index[previous.Name], term, documentId)
+	}
+}
+
 func (m *Memory) createFieldDocument(documentId string, field model.Field) {
 	if fieldIndex, ok := m.FieldDocument[documentId]; ok {
 		fieldIndex[field.Name] = field
diff --git a/storage/Storage.go b/storage/Storage.go
index 909da08..3ad1bb7 100644
--- a/storage/Storage.go
+++ b/storage/Storage.go
@@ -21,6 +21,16 @@ type Storage interface {
 	UpdateIndex(documentId string, field model.Field)
 }
 
+// removePosting takes a document from the posting set of a term
+func removePosting(indexField map[string]*model.Set, term string, documentId string) {
+	if set, ok := indexField[term]; ok {
+		set.Remove(documentId)
+		if set.Size() == 0 {
+			delete(indexField, term)
+		}
+	}
+}
+
 // cloneIndexField copies the postings of a field, so that the caller can use them while documents are saved.
 func cloneIndexField(indexField map[string]*model.Set) map[string]*model.Set {
 	if indexField == nil {
-- 
2.43.0


From 1469491c0e84ed215e2f6cc7eedc2c2fe41063ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 10/18] fix: a search can see a document half indexed, with
 statistics that do not fit its hits

---
 index/InvertedIndex.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index ccd27dd..0a612b0 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -16,6 +16,7 @@ type Index interface {
 
 type InvertedIndex struct {
 	Storage storage.Storage
+	mu      sync.RWMutex //a search sees a document either completely or not at all
 }
 
 func NewIndex(storage storage.Storage) Index {
@@ -34,6 +35,9 @@ func (i *InvertedIndex) GetIndex(fieldName string) map[string]*model.Set {
 
 func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchResult {
 
+	i.mu.RLock()
+	defer i.mu.RUnlock()
+
 	maxRoutines := runtime.NumCPU() * 2
 
 	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
@@ -133,6 +137,9 @@ func containsAny(field model.Field, terms []string) bool {
 
 func (i *InvertedIndex) IndexDocument(documentId string, document model.NormalizedDocument) {
 
+	i.mu.Lock()
+	defer i.mu.Unlock()
+
 	for _, field := range document.Fields {
 		i.Storage.SaveOrUpdate(documentId, field)
 	}
-- 
2.43.0


From 1163e2585a4f6dc01003909ff38736c65806ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 11/18] fix: document ids and field names clash with the
 store's own files, with each other, or leave the folder

---
 file/Name.go      | 60 +++++++++++++++++++++++++++++++++++++++++++++++
 storage/DiskIO.go | 20 ++++++++--------
 2 files changed, 70 insertions(+), 10 deletions(-)
 create mode 100644 file/Name.go

diff --git a/file/Name.go b/file/Name.go
new file mode 100644
index 0000000..0b4559a
--- /dev/null
+++ b/file/Name.go
@@ -0,0 +1,60 @@
+package file
+
+import (
+	"crypto/sha256"
+	"encoding/hex"
+	"fmt"
+	"strings"
+)
+
+const maxNameSize = 200
+
+// EncodeName turns any document id or field name into the name of a file: usual names stay as they are, distinct names
+// get distinct files, and none is taken for one of the store's own files.
+func EncodeName(name string) string {
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c == '/' || c == '\\' || c == '%' || c < ' ' || (c == '.' && i == 0) {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	if name == "" {
+		return "%"
+	}
+	if name == Documents {
+		return fmt.Sprintf("%%%02X", name[0]) + name[1:]
+	}
+	return b.String()
+}
+
+// EncodeLongName is EncodeName for names of any size; the longest cannot be decoded.
+func EncodeLongName(name string) string {
+	encoded := EncodeName(name)
+	if len(encoded) > maxNameSize {
+		sum := sha256.Sum256([]byte(name))
+		encoded = encoded[:100] + "%-" + hex.EncodeToString(sum[:])
+	}
+	return encoded
+}
+
+// DecodeName reverses EncodeName.
+func DecodeName(encoded string) string {
+	if encoded == "%" {
+		return ""
+	}
+	var b strings.Builder
+	for i := 0; i < len(encoded); i++ {
+		if encoded[i] == '%' && i+2 < len(encoded) {
+			if c, err := hex.DecodeString(encoded[i+1 : i+3]); err == nil {
+				b.WriteByte(c[0])
+				i += 2
+				continue
+			}
+		}
+		b.WriteByte(encoded[i])
+	}
+	return b.String()
+}
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index b191ec8..8186f1a 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -32,7 +32,7 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 		if err != nil {
 			return nil, err
 		}
-		numberFieldTerm[field] = termSize
+		numberFieldTerm[file.DecodeName(field)] = termSize
 	}
 	return numberFieldTerm, nil
 }
@@ -72,7 +72,7 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 }
 
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.EncodeLongName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
 		return nil, false
@@ -82,7 +82,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
 	termDocuments := make(map[string]*model.Set)
-	path := filepath.Join(rootFolder, field, file.IndexFile)
+	path := filepath.Join(rootFolder, file.EncodeName(field), file.IndexFile)
 	if !file.Exists(path) {
 		return termDocuments, nil
 	}
@@ -110,7 +110,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 		file.CreteDirIfNotExist(path)
 		files := file.ListFiles(path)
 
-		termDocuments, err := LoadTermDocumentsFromIndex(field, d.RootFolder)
+		termDocuments, err := LoadTermDocumentsFromIndex(file.DecodeName(field), d.RootFolder)
 		if err != nil {
 			return nil, err
 		}
@@ -134,7 +134,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 				termDocuments[term] = set
 			}
 		}
-		index[field] = termDocuments
+		index[file.DecodeName(field)] = termDocuments
 
 		tempTermDocuments := make(map[string]map[string]bool)
 		for term, documents := range termDocuments {
@@ -221,7 +221,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldMap(fieldDocument.Field)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+				err := file.SecureSaveFile(path, file.EncodeLongName(documentId), file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
@@ -262,7 +262,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EncodeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				allTermSize, err := loadNumberFieldTerm(filepath.Join(path, file.NumberFieldTerm))
@@ -309,7 +309,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EncodeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
@@ -376,13 +376,13 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
+				path := filepath.Join(d.RootFolder, file.EncodeName(fieldName), file.Temp)
 				file.CreteDirIfNotExist(path)
 
 				tempFile := uuid.New().String()
 				path = filepath.Join(path, tempFile)
 				//the merge reads whatever it finds in the temp folder, so a fragment gets there only when complete
-				newPath := filepath.Join(d.RootFolder, fieldName, "."+tempFile)
+				newPath := filepath.Join(d.RootFolder, file.EncodeName(fieldName), "."+tempFile)
 				err := file.SaveFileOnDisk(newPath, file.CompressData(buffer))
 				if err != nil {
 					log.Fatalf(err.Error())
-- 
2.43.0


From 6346823554b0cd1a83cea7af822f96ed04f38638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 12/18] fix: the stemmer turns words like ''s into empty terms

---
 filter/Stemmer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter/Stemmer.go b/filter/Stemmer.go
index 0c47e28..90cfd63 100644
--- a/filter/Stemmer.go
+++ b/filter/Stemmer.go
@@ -34,6 +34,10 @@ func (s *Stemmer) Process(text []string) []string {
 		go func(i int, word string) {
 			defer wg.Done()
 			temp[i] = porter2.Stem(word)
+			if temp[i] == "" {
+				//nothing but a suffix, like ''s
+				temp[i] = word
+			}
 		}(i, word)
 	}
 	wg.Wait()
-- 
2.43.0


From f0ae4ee8ed832c228b86167ba2974f0eee424312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 13/18] fix: GetID renders a numeric or null id as a formatting
 error

---
 field/FieldProcess.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..06bf813 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -3,6 +3,7 @@ package field
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 )
 
 const ID = "Id"
@@ -19,6 +20,12 @@ func StringToObject(document string) map[string]interface{} {
 func GetID(input map[string]interface{}) string {
 	for k, v := range input {
 		if k == ID {
+			switch id := v.(type) {
+			case nil:
+				return ""
+			case float64:
+				return strconv.FormatFloat(id, 'f', -1, 64)
+			}
 			return fmt.Sprintf("%s", v)
 		}
 	}
-- 
2.43.0


From 6446b1961c675856054772854e15a9c65a21107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 14/18] fix: a search with one to nine hits panics

---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index aded6c2..9ca4d75 100644
--- a/main.go
+++ b/main.go
@@ -202,12 +202,17 @@ func main() {
 			}
 		}
 
+		limit := 10
+		if len(queryResults) < limit {
+			limit = len(queryResults)
+		}
+
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          limit,
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults[0:limit],
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From 2637bfd5d168ded0b5ec2e46acd00d4d3f54dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 15/18] fix: concurrent searches race on the query counter

---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 9ca4d75..5ad87d9 100644
--- a/main.go
+++ b/main.go
@@ -17,6 +17,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/testecolection"
 	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
 	"net/http"
+	"sync/atomic"
 	"time"
 )
 
@@ -46,7 +47,7 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
+var id int64 = 0
 
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
@@ -179,7 +180,7 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
+		atomic.AddInt64(&id, 1)
 		//fmt.Println("Qid:", id, len(rs))
 		if len(rs) == 0 {
 			body := Result{
-- 
2.43.0


From 7e392d0d4b90e14b27d70c5b8d0c34520461e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 16/18] fix: Flatten drops the empty keys at the start of a
 path

---
 field/FieldProcess.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 06bf813..28a4cb2 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -40,13 +40,10 @@ func Flatten(input map[string]interface{}) map[string]interface{} {
 
 func recFlatten(input map[string]interface{}, output map[string]interface{}, prefix string) {
 	for k, v := range input {
-		key := k
-		if prefix != "" {
-			key = prefix + "." + k
-		}
+		key := prefix + k
 		switch value := v.(type) {
 		case map[string]interface{}:
-			recFlatten(value, output, key)
+			recFlatten(value, output, key+".")
 		default:
 			output[key] = value
 		}
-- 
2.43.0


From 1a95ce30a4618cb98fe457b193919b155770d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:23 +0000
Subject: [PATCH 17/18] fix: a document that cannot be read is not taken for a
 new one

A failing read (an I/O error, too many open files) was answered like a missing file, so saving one field of the document
replaced its file with that field alone.
---
 storage/DiskIO.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 8186f1a..67596bb 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -6,6 +6,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/file"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"log"
+	"os"
 	"path/filepath"
 	"sync"
 	"time"
@@ -74,9 +75,13 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.EncodeLongName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil, false
 	}
+	if err != nil {
+		//taking the document for a new one would drop its other fields
+		log.Fatalf("Failed to read document: %v", err)
+	}
 	return DeserializeFieldMap(file.DecompressData(buf)), true
 }
 
-- 
2.43.0


From 94e3c79207fcf178c45ee46027371aa5eee93d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 18/18] fix: scores stay finite and not negative when a crash
 left the statistics behind

---
 index/InvertedIndex.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index 0a612b0..6534076 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -123,9 +123,30 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 	result.TotalDocuments = fieldSize
 	result.AvgDocLength = fieldLength / fieldSize
 
+	//after a crash, the statistics may lack what was saved last; the scores must stay finite and not negative
+	for _, size := range result.NumFieldsWithTerm {
+		if float64(size) > result.TotalDocuments {
+			result.TotalDocuments = float64(size)
+		}
+	}
+	if fieldSize == 0 || fieldLength == 0 {
+		result.AvgDocLength = avgLength(fieldDocuments)
+	}
+
 	return result
 }
 
+func avgLength(fields map[string]model.Field) float64 {
+	total := 0
+	for _, field := range fields {
+		total += field.Length
+	}
+	if total == 0 {
+		return 1
+	}
+	return float64(total) / float64(len(fields))
+}
+
 func containsAny(field model.Field, terms []string) bool {
 	for _, term := range terms {
 		if _, ok := field.TF[term]; ok {
-- 
2.43.0

