From 6a0d18fff300503d3641cb097eb9263385f3e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 01/33] fix: release the drive when opening it fails and allow
 closing it more than once

GetWriter and GetReader kept the physical lock when opening the drive failed,
so that every later call blocked forever, Close unlocked an unlocked mutex
(which crashes the process) when called twice or after a failed open and kept
the lock when closing failed, and a reader could be shared without a lock.
---
 pkg/tape/manager.go | 66 +++++++++++++++------------------------------
 pkg/tape/write.go   |  6 +++++
 2 files changed, 27 insertions(+), 45 deletions(-)

diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..fd2fc56 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -1,8 +1,6 @@
 package tape
 
 import (
-	"io"
-	"os"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -16,10 +14,6 @@ type TapeManager struct {
 
 	physicalLock sync.Mutex
 
-	readerLock      sync.Mutex
-	reader          *os.File
-	readerIsRegular bool
-
 	closer func() error
 
 	overwrote bool
@@ -46,7 +40,6 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 	if m.overwrote {
 		overwrite = false
 	}
-	m.overwrote = true
 
 	writer, writerIsRegular, err := OpenTapeWriteOnly(
 		m.drive,
@@ -55,8 +48,11 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
+	m.overwrote = true
 
 	m.closer = writer.Close
 
@@ -67,53 +63,33 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 }
 
 func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
-	if err := m.openOrReuseReader(); err != nil {
+	m.physicalLock.Lock()
+
+	reader, readerIsRegular, err := OpenTapeReadOnly(m.drive)
+	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveReaderConfig{}, err
 	}
 
+	m.closer = reader.Close
+
 	return config.DriveReaderConfig{
-		Drive:          m.reader,
-		DriveIsRegular: m.readerIsRegular,
+		Drive:          reader,
+		DriveIsRegular: readerIsRegular,
 	}, nil
 }
 
 func (m *TapeManager) Close() error {
-	if m.closer != nil {
-		if err := m.closer(); err != nil {
-			return err
-		}
+	closer := m.closer
+	if closer == nil {
+		// The drive is not in use
+		return nil
 	}
+	m.closer = nil
 
-	m.physicalLock.Unlock()
-
-	return nil
-}
-
-func (m *TapeManager) openOrReuseReader() error {
-	m.readerLock.Lock()
-	defer m.readerLock.Unlock()
-
-	reopen := false
-	if m.reader == nil {
-		reopen = true
-	} else if _, err := m.reader.Seek(0, io.SeekCurrent); err != nil {
-		// File is closed
-		reopen = true
-	}
-
-	if reopen {
-		m.physicalLock.Lock()
-
-		r, rr, err := OpenTapeReadOnly(m.drive)
-		if err != nil {
-			return err
-		}
-
-		m.reader = r
-		m.readerIsRegular = rr
-
-		m.closer = r.Close
-	}
+	// The drive needs to be usable again even if closing it fails
+	defer m.physicalLock.Unlock()
 
-	return nil
+	return closer()
 }
diff --git a/pkg/tape/write.go b/pkg/tape/write.go
index 0fd031e..d856543 100644
--- a/pkg/tape/write.go
+++ b/pkg/tape/write.go
@@ -32,6 +32,8 @@ func OpenTapeWriteOnly(
 
 			// Clear the file's content
 			if err := f.Truncate(0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -46,6 +48,8 @@ func OpenTapeWriteOnly(
 
 			// Seek to the start of the tape
 			if err := mt.SeekToRecordOnTape(f.Fd(), 0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -71,6 +75,8 @@ func OpenTapeWriteOnly(
 		if !overwrite {
 			// Go to end of tape
 			if err := mt.GoToEndOfTape(f.Fd()); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 		}
-- 
2.43.0


From 87506075f370a0891b71b95f3844eda52732c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 02/33] fix: find every record on a regular drive when indexing
 it

The position of a record was derived from how far the tar reader had read
ahead, which skipped records after file marks and torn writes.
---
 pkg/recovery/index.go | 118 +++++++++++++++++++-----------------------
 1 file changed, 53 insertions(+), 65 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..a10320e 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	"context"
 	"database/sql"
+	"errors"
 	"io"
 	"io/ioutil"
 	"math"
@@ -49,74 +50,42 @@ func Index(
 	}
 
 	if reader.DriveIsRegular {
-		// Seek to record and block
-		if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*record)+block*config.MagneticTapeBlockSize), 0); err != nil {
+		size, err := reader.Drive.Seek(0, io.SeekEnd)
+		if err != nil {
 			return err
 		}
 
-		tr := tar.NewReader(reader.Drive)
-
-		record := int64(record)
-		block := int64(block)
+		next := getOffset(pipes.RecordSize, int64(record), int64(block))
 		i := 0
 
 		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-							break
-						}
+			if next >= size {
+				// EOF
+				break
+			}
 
-						continue
-					}
+			record, block := getRecordAndBlock(pipes.RecordSize, next)
 
-					break
-				}
+			// Seek to record and block
+			if _, err := reader.Drive.Seek(getOffset(pipes.RecordSize, record, block), io.SeekStart); err != nil {
+				return err
 			}
 
-			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
-					if err == io.EOF {
-						// EOF
-						break
-					}
+			tr := tar.NewReader(reader.Drive)
 
+			hdr, err := tr.Next()
+			if err != nil {
+				if !isNoRecord(err) {
 					return err
 				}
 
+				// Skip over the file mark or torn header; this makes it possible to append to a tar file created by i.e. GNU tar
+				next += config.MagneticTapeBlockSize
+
 				continue
 			}
 
-			if i >= offset {
+			if i >= offset && hdr.Typeflag != tar.TypeXGlobalHeader {
 				if err := decryptHeader(hdr, i-offset); err != nil {
 					return err
 				}
@@ -130,30 +99,25 @@ func Index(
 				}
 			}
 
-			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return err
-			}
-
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if isNoRecord(err) {
+					// The content has been cut off, so there can't be anything after it
+					break
+				}
+
 				return err
 			}
 
-			currAndSize, err := reader.Drive.Seek(0, io.SeekCurrent)
+			curr, err := reader.Drive.Seek(0, io.SeekCurrent)
 			if err != nil {
 				return err
 			}
 
-			nextTotalBlocks := math.Ceil(float64(curr+(currAndSize-curr)) / float64(config.MagneticTapeBlockSize))
-			record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-			block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
+			next = alignToBlock(curr)
 
-			if block > int64(pipes.RecordSize) {
-				record++
-				block = 0
+			if hdr.Typeflag != tar.TypeXGlobalHeader {
+				i++
 			}
-
-			i++
 		}
 	} else {
 		// Seek to record
@@ -361,3 +325,27 @@ func indexHeader(
 
 	return nil
 }
+
+// isNoRecord checks if reading failed because there is no (complete) record
+func isNoRecord(err error) bool {
+	return err == io.EOF ||
+		errors.Is(err, io.ErrUnexpectedEOF) ||
+		errors.Is(err, tar.ErrHeader) ||
+		errors.Is(err, tar.ErrFieldTooLong)
+}
+
+func getOffset(recordSize int, record int64, block int64) int64 {
+	return (int64(recordSize)*record + block) * config.MagneticTapeBlockSize
+}
+
+func getRecordAndBlock(recordSize int, offset int64) (record int64, block int64) {
+	blocks := alignToBlock(offset) / config.MagneticTapeBlockSize
+
+	record = blocks / int64(recordSize)
+
+	return record, blocks - (record * int64(recordSize))
+}
+
+func alignToBlock(offset int64) int64 {
+	return (offset + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize * config.MagneticTapeBlockSize
+}
-- 
2.43.0


From b1d836d781ea708ebc6a498e9e3bce575243dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 03/33] fix: apply the same change to the index when a record
 is indexed again

Names of records without content lost suffixes which they never got, records
without content replaced the content's size, move records carried over the
records of previous updates, deleting a header that is gone already stopped
the indexing, and deleting a link deleted what it was linking to.
---
 pkg/operations/move.go   |  1 +
 pkg/operations/update.go |  3 +++
 pkg/recovery/index.go    | 32 ++++++++++++++++++++++++++++++--
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..035a859 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -91,6 +91,7 @@ func (o *Operations) Move(from string, to string) error {
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
+		hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
 
 		hdrs = append(hdrs, *hdr)
 
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..d26f262 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -73,6 +73,9 @@ func (o *Operations) Update(
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 
+		// Records of previous operations don't apply to this one
+		delete(hdr.PAXRecords, records.STFSRecordReplacesName)
+
 		var f io.ReadSeekCloser
 		if file.Info.Mode().IsRegular() && replace && (file.Info.Size() > 0 || skipSizeCheck) {
 			// Get the compressed size for the header
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index a10320e..819cee1 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -223,7 +223,8 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only content is compressed and encrypted, so only names of records with content have suffixes
+	if hdr.FileInfo().Mode().IsRegular() && ok && hasContent(hdr) {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
@@ -263,7 +264,19 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionDelete:
-			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil {
+			if hdr.Linkname != "" {
+				// Links share their name with what they are linking to, so only delete the link itself
+				dbhdr, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
+				if err != nil {
+					return err
+				}
+				dbhdr.Deleted = 1
+
+				return metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(dbhdr))
+			}
+
+			// To support re-indexing, we need to ignore headers that don't exist (anymore)
+			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
 				return err
 			}
 		case records.STFSRecordActionUpdate:
@@ -298,6 +311,9 @@ func indexHeader(
 
 					newHdr = h
 
+					// The content stays the same
+					newHdr.Size = oldHdr.Size
+
 					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 						return err
 					}
@@ -326,6 +342,18 @@ func indexHeader(
 	return nil
 }
 
+// hasContent checks if a record has been written for its content instead of just its metadata
+func hasContent(hdr *tar.Header) bool {
+	switch hdr.PAXRecords[records.STFSRecordAction] {
+	case records.STFSRecordActionDelete:
+		return false
+	case records.STFSRecordActionUpdate:
+		return hdr.PAXRecords[records.STFSRecordReplacesContent] == records.STFSRecordReplacesContentTrue
+	default:
+		return true
+	}
+}
+
 // isNoRecord checks if reading failed because there is no (complete) record
 func isNoRecord(err error) bool {
 	return err == io.EOF ||
-- 
2.43.0


From 8c798befc452f0bc12a5ccbb42e885b60848ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 04/33] fix: sanitize names in the index the same way no matter
 what has been indexed before

The root directory was cached before it was known, moves ran into the primary
keys of deleted headers, updates brought deleted headers back and like patterns
matched siblings.
---
 pkg/persisters/metadata.go | 256 ++++++++++++++++++++++++-------------
 1 file changed, 166 insertions(+), 90 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..4e06dc0 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -4,12 +4,13 @@ package persisters
 //go:generate go-bindata -pkg metadata -o ../../internal/db/sqlite/migrations/metadata/migrations.go ../../db/sqlite/migrations/metadata
 
 import (
+	"archive/tar"
 	"context"
 	"database/sql"
 	"fmt"
 	"path"
-	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/db/sqlite/migrations/metadata"
@@ -30,13 +31,14 @@ type depth struct {
 type MetadataPersister struct {
 	sqlite *ipersisters.SQLite
 
-	root              string
-	rootIsEmptyString bool
+	rootLock  sync.Mutex
+	root      string
+	rootKnown bool
 }
 
 func NewMetadataPersister(dbPath string) *MetadataPersister {
 	return &MetadataPersister{
-		&ipersisters.SQLite{
+		sqlite: &ipersisters.SQLite{
 			DBPath: dbPath,
 			Migrations: migrate.AssetMigrationSource{
 				Asset:    metadata.Asset,
@@ -44,8 +46,6 @@ func NewMetadataPersister(dbPath string) *MetadataPersister {
 				Dir:      "../../db/sqlite/migrations/metadata",
 			},
 		},
-		"",
-		false,
 	}
 }
 
@@ -54,25 +54,22 @@ func (p *MetadataPersister) Open() error {
 		return err
 	}
 
-	root, err := p.GetRootPath(context.Background())
+	_, err := p.GetRootPath(context.Background())
 
 	// Ignore if root directory can't be found, which can happen i.e. on initial archiving
 	if err == config.ErrNoRootDirectory {
 		return nil
 	}
 
-	if err != nil {
-		return err
-	}
-
-	p.root = root
-
-	return nil
+	return err
 }
 
 func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
 	// Cache the root directory
-	if p.root != "" {
+	if p.rootKnown {
 		return p.root, nil
 	}
 
@@ -80,14 +77,18 @@ func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
 
 	if err := queries.Raw(
 		fmt.Sprintf(
-			`select min(length(%v) - length(replace(%v, "/", ""))) as depth, name from %v where %v != 1`,
+			`select length(%v) - length(replace(%v, "/", "")) as depth, name from %v where %v != 1 and %v = '' order by not %v in ('', '.', '/', './'), depth, %v != ? limit 1`,
 			models.HeaderColumns.Name,
 			models.HeaderColumns.Name,
 			models.TableNames.Headers,
 			models.HeaderColumns.Deleted,
+			models.HeaderColumns.Linkname,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Typeflag,
 		),
+		int64(tar.TypeDir),
 	).Bind(ctx, p.sqlite.DB, &root); err != nil {
-		if strings.Contains(err.Error(), "converting NULL to string is unsupported") {
+		if err == sql.ErrNoRows {
 			return "", config.ErrNoRootDirectory
 		}
 
@@ -95,16 +96,45 @@ func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
 	}
 
 	p.root = root.Name
+	p.rootKnown = true
 
 	return root.Name, nil
 }
 
+// forgetRootPathIfAffected needs to be called if a header with a name has been added, changed or removed
+func (p *MetadataPersister) forgetRootPathIfAffected(name string) {
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
+	// Headers inside of the root directory can't become the root directory
+	if p.rootKnown && name != p.root && !pathext.IsRoot(name, false) &&
+		(pathext.IsRoot(p.root, false) || strings.Count(name, "/") > strings.Count(p.root, "/")) {
+		return
+	}
+
+	p.root = ""
+	p.rootKnown = false
+}
+
+func (p *MetadataPersister) forgetRootPath() {
+	p.rootLock.Lock()
+	defer p.rootLock.Unlock()
+
+	p.root = ""
+	p.rootKnown = false
+}
+
 func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Header, initializing bool) error {
 	idbhdr := converters.ConfigHeaderToDBHeader(dbhdr)
 
 	hdr := *idbhdr
 	if !initializing {
-		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+		name, err := p.getSanitizedPathForInsertion(ctx, idbhdr.Name)
+		if err != nil {
+			return err
+		}
+
+		hdr.Name = name
 	}
 
 	if _, err := models.Headers(
@@ -115,6 +145,9 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 			if err := hdr.Insert(ctx, p.sqlite.DB, boil.Infer()); err != nil {
 				return err
 			}
+
+			// The inserted header could be the root directory
+			p.forgetRootPathIfAffected(hdr.Name)
 		} else {
 			return err
 		}
@@ -133,6 +166,20 @@ func (p *MetadataPersister) UpdateHeaderMetadata(ctx context.Context, dbhdr *con
 	hdr := *idbhdr
 	hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
 
+	// Deleted headers must not come back because they are being updated
+	exists, err := models.Headers(
+		qm.Where(models.HeaderColumns.Name+" = ?", hdr.Name),
+		qm.Where(models.HeaderColumns.Linkname+" = ?", hdr.Linkname),
+		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+	).Exists(ctx, p.sqlite.DB)
+	if err != nil {
+		return err
+	}
+
+	if !exists {
+		return nil
+	}
+
 	if _, err := hdr.Update(ctx, p.sqlite.DB, boil.Infer()); err != nil {
 		return err
 	}
@@ -144,48 +191,59 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
+	if newName == oldName {
+		return nil
+	}
+
+	tx, err := p.sqlite.DB.BeginTx(ctx, nil)
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+
+	// Replace headers which have the new name already, i.e. ones which have been deleted before
+	if _, err := queries.Raw(
+		fmt.Sprintf(
+			`delete from %v where %v = ? and %v in (select %v from %v where %v = ? and %v != 1);`,
+			models.TableNames.Headers,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Linkname,
+			models.HeaderColumns.Linkname,
+			models.TableNames.Headers,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Deleted,
+		),
+		newName,
+		oldName,
+	).ExecContext(ctx, tx); err != nil {
+		return err
+	}
+
 	// We can't do this with `dbhdr.Update` because we are renaming the primary key
-	n, err := queries.Raw(
+	if _, err := queries.Raw(
 		fmt.Sprintf(
-			`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
+			`update %v set %v = ?, %v = ?, %v = ? where %v = ? and %v != 1;`,
 			models.TableNames.Headers,
 			models.HeaderColumns.Name,
 			models.HeaderColumns.Lastknownrecord,
 			models.HeaderColumns.Lastknownblock,
 			models.HeaderColumns.Name,
+			models.HeaderColumns.Deleted,
 		),
 		newName,
 		lastknownrecord,
 		lastknownblock,
 		oldName,
-	).ExecContext(ctx, p.sqlite.DB)
-	if err != nil {
+	).ExecContext(ctx, tx); err != nil {
 		return err
 	}
 
-	written, err := n.RowsAffected()
-	if err != nil {
+	if err := tx.Commit(); err != nil {
 		return err
 	}
 
-	if written < 1 {
-		if _, err := queries.Raw(
-			fmt.Sprintf(
-				`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
-				models.TableNames.Headers,
-				models.HeaderColumns.Name,
-				models.HeaderColumns.Lastknownrecord,
-				models.HeaderColumns.Lastknownblock,
-				models.HeaderColumns.Name,
-			),
-			newName,
-			lastknownrecord,
-			lastknownblock,
-			oldName,
-		).ExecContext(ctx, p.sqlite.DB); err != nil {
-			return err
-		}
-	}
+	p.forgetRootPathIfAffected(oldName)
+	p.forgetRootPathIfAffected(newName)
 
 	return nil
 }
@@ -212,6 +270,7 @@ func (p *MetadataPersister) GetHeader(ctx context.Context, name string) (*config
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Linkname), // Prefer the header itself over links to it
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
@@ -237,8 +296,14 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
 
+	// Prevent double trailing slashes; if the root does not have a name, everything is in it
+	directory := strings.TrimSuffix(name, "/") + "/"
+	if name == "" || name == "." {
+		directory = ""
+	}
+
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", directory, directory),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -301,9 +366,9 @@ func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name st
 
 		query := fmt.Sprintf(
 			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
+    length(substr(%v, length(?) + 1)) - length(replace(substr(%v, length(?) + 1), '/', '')) as depth
 from %v
-where %v like ?
+where substr(%v, 1, length(?)) = ?
     and (
         depth = ?
         or (
@@ -350,7 +415,8 @@ where %v like ?
 				query+`limit ?`,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 				limit+1, // +1 to accomodate the parent directory if it exists
@@ -366,7 +432,8 @@ where %v like ?
 				query,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
@@ -442,6 +509,7 @@ func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastk
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
+		qm.OrderBy(models.HeaderColumns.Linkname), // Prefer the header itself over links to it
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
 		return nil, err
@@ -455,6 +523,8 @@ func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastk
 		return nil, err
 	}
 
+	p.forgetRootPathIfAffected(name)
+
 	return converters.DBHeaderToConfigHeader(hdr), nil
 }
 
@@ -486,65 +556,71 @@ func (p *MetadataPersister) PurgeAllHeaders(ctx context.Context) error {
 		return err
 	}
 
-	p.root = ""
-	p.rootIsEmptyString = false
+	p.forgetRootPath()
 
 	return nil
 }
 
-func (p *MetadataPersister) headerExistsExact(ctx context.Context, name string) error {
-	exists, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" = ?", name),
-		qm.Where(models.HeaderColumns.Deleted+" != 1"),
-	).Exists(ctx, p.sqlite.DB)
+// getSanitizedPath returns the name under which a header is or would be stored
+func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
+	root, err := p.GetRootPath(ctx)
 	if err != nil {
-		return err
+		// There is no root directory yet
+		if pathext.IsRoot(name, false) {
+			return name
+		}
+
+		return path.Clean(name)
 	}
 
-	if !exists {
-		return sql.ErrNoRows
+	// If root is queried, return actual root
+	if pathext.IsRoot(name, false) || name == root {
+		return root
 	}
 
-	return nil
-}
+	name = path.Clean(name)
+	if pathext.IsRoot(name, false) {
+		return root
+	}
 
-func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
-	// If root is queried, return actual root
-	if pathext.IsRoot(name, false) || name == p.root {
-		return p.root
+	if strings.HasPrefix(root, "/") {
+		return path.Join("/", name)
 	}
 
-	// If root has not been set, the incoming path is absolute and no header with the exact name "" (empty string) exists, assume it is root
-	if p.root == "" && strings.HasPrefix(name, "/") && !p.rootIsEmptyString {
-		if err := p.headerExistsExact(ctx, ""); err != nil {
-			p.root = name
+	// If the root path is "./"; this is `tar`s default behaviour if . is the source
+	if root == "./" {
+		return root + strings.TrimPrefix(name, "/")
+	}
 
-			return p.root
-		} else {
-			p.rootIsEmptyString = true
+	// The root path is relative; this is `tar`s default behaviour if ${PWD} is the source
+	return strings.TrimPrefix(name, "/")
+}
+
+// getSanitizedPathForInsertion returns the name under which a header which might not exist yet should be stored
+func (p *MetadataPersister) getSanitizedPathForInsertion(ctx context.Context, name string) (string, error) {
+	root, err := p.GetRootPath(ctx)
+	if err == nil && !pathext.IsRoot(root, false) && (pathext.IsRoot(name, false) || pathext.IsRoot(path.Clean(name), false)) {
+		// The actual root directory follows the headers in it
+		if strings.HasPrefix(root, "/") {
+			return "/", nil
 		}
+
+		return "", nil
 	}
 
-	// Keep absolute paths untouched if root is also absolute
-	if strings.HasPrefix(p.root, "/") && strings.HasPrefix(name, "/") {
-		return name
+	if err == config.ErrNoRootDirectory {
+		// Always store the same name no matter how it is spelled
+		switch name = path.Clean(name); name {
+		case ".":
+			return "", nil
+		default:
+			return name, nil
+		}
 	}
 
-	// Get correct root prefix
-	prefix := ""
-	if p.root == "" {
-		prefix = ""
-	} else if p.root == "." {
-		prefix = "."
-	} else if p.root == "./" {
-		return "./" + strings.TrimPrefix(strings.TrimPrefix(name, "./"), "/") // // If the root path is "./"; this is `tar`s default behaviour if . is the source
-	} else if p.root == "/" {
-		prefix = "/"
-	} else if !(strings.HasPrefix(p.root, "/") || strings.HasPrefix(p.root, "./")) { // If the root path is relative, but does not start with "./"; this is `tar`s default behaviour if ${PWD} is the source
-		return name
-	} else {
-		return "./" + filepath.Clean(strings.TrimPrefix(name, "/")) // Special case: There is no root directory, only files, and the files start with `./`
-	}
-
-	return path.Join(prefix, strings.TrimPrefix(name, "/"))
+	if err != nil {
+		return "", err
+	}
+
+	return p.getSanitizedPath(ctx, name), nil
 }
-- 
2.43.0


From d6a39bcd8eeca9153ec79ea0b21f91c68a2f6452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 05/33] fix: free the drive and take back what has been written
 when an operation fails

Operations which failed left the drive locked and half of a record on it, and
records on the drive which have not been indexed got the headers of the next
operation. Appending after a write that was cut off now completes its record
first.
---
 internal/ioext/padding.go    |  22 ++++
 pkg/config/error.go          |   2 +
 pkg/operations/append.go     | 222 +++++++++++++++++++++++++++++++++++
 pkg/operations/archive.go    |  76 +-----------
 pkg/operations/delete.go     |  72 ++----------
 pkg/operations/move.go       |  72 ++----------
 pkg/operations/operations.go |   4 +
 pkg/operations/update.go     |  68 ++---------
 pkg/recovery/index.go        |  60 +++++++---
 pkg/recovery/tail.go         | 144 +++++++++++++++++++++++
 10 files changed, 465 insertions(+), 277 deletions(-)
 create mode 100644 internal/ioext/padding.go
 create mode 100644 pkg/operations/append.go
 create mode 100644 pkg/recovery/tail.go

diff --git a/internal/ioext/padding.go b/internal/ioext/padding.go
new file mode 100644
index 0000000..5cf6f0e
--- /dev/null
+++ b/internal/ioext/padding.go
@@ -0,0 +1,22 @@
+package ioext
+
+import "io"
+
+// PaddedWriter writes missing zeros before the first write
+type PaddedWriter struct {
+	Writer io.Writer
+
+	Missing int64
+}
+
+func (w *PaddedWriter) Write(p []byte) (n int, err error) {
+	if w.Missing > 0 {
+		n, err := w.Writer.Write(make([]byte, w.Missing))
+		w.Missing -= int64(n)
+		if err != nil {
+			return 0, err
+		}
+	}
+
+	return w.Writer.Write(p)
+}
diff --git a/pkg/config/error.go b/pkg/config/error.go
index f6ce154..5efd843 100644
--- a/pkg/config/error.go
+++ b/pkg/config/error.go
@@ -33,6 +33,8 @@ var (
 	ErrSTFSVersionUnsupported = errors.New("STFS version unsupported")
 	ErrSTFSActionUnsupported  = errors.New("STFS action unsupported")
 
+	ErrIndexOutdated = errors.New("index does not match the drive, re-indexing is required")
+
 	ErrNotImplemented = errors.New("not implemented")
 	ErrIsDirectory    = errors.New("is a directory")
 	ErrIsFile         = errors.New("is a file")
diff --git a/pkg/operations/append.go b/pkg/operations/append.go
new file mode 100644
index 0000000..0ea37a1
--- /dev/null
+++ b/pkg/operations/append.go
@@ -0,0 +1,222 @@
+package operations
+
+import (
+	"archive/tar"
+	"context"
+	"errors"
+	"io"
+	"os"
+
+	"github.com/pojntfx/stfs/internal/ioext"
+	"github.com/pojntfx/stfs/internal/tarext"
+	"github.com/pojntfx/stfs/pkg/config"
+	"github.com/pojntfx/stfs/pkg/recovery"
+)
+
+// appender appends one archive to the drive
+type appender struct {
+	o *Operations
+
+	writer  config.DriveWriterConfig
+	tw      *tar.Writer
+	cleanup func(dirty *bool) error
+	dirty   bool
+
+	overwrite         bool
+	lastIndexedRecord int64
+	lastIndexedBlock  int64
+	offset            int
+
+	// Headers which have been written by previous operations, but could not be indexed by them
+	unindexed []*tar.Header
+
+	closed bool
+	size   int64 // -1 if the drive can't be restored
+}
+
+// startAppending opens the drive; every successful call needs to be followed by `rollback`
+func (o *Operations) startAppending(overwrite bool) (*appender, error) {
+	a := &appender{
+		o: o,
+
+		overwrite: overwrite,
+
+		size: -1,
+	}
+
+	missing := int64(0)
+	if !overwrite {
+		var err error
+		a.lastIndexedRecord, a.lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+		if err != nil {
+			return nil, err
+		}
+
+		a.offset = 1 // Ignore the first header, which is the last header which we already indexed
+
+		if missing, err = a.inspectTail(); err != nil {
+			return nil, err
+		}
+	}
+
+	writer, err := o.backend.GetWriter()
+	if err != nil {
+		return nil, err
+	}
+	a.writer = writer
+
+	drive := writer.Drive
+	if writer.DriveIsRegular {
+		if seeker, ok := writer.Drive.(io.Seeker); ok {
+			if a.size, err = seeker.Seek(0, io.SeekEnd); err != nil {
+				a.size = -1
+				a.rollback()
+
+				return nil, err
+			}
+		}
+
+		if missing > 0 {
+			drive = &ioext.PaddedWriter{Writer: writer.Drive, Missing: missing}
+		}
+	}
+
+	a.tw, a.cleanup, err = tarext.NewTapeWriter(drive, writer.DriveIsRegular, o.pipes.RecordSize)
+	if err != nil {
+		a.rollback()
+
+		return nil, err
+	}
+
+	return a, nil
+}
+
+// inspectTail prepares for appending to a regular drive on which the last write might not have been completed
+func (a *appender) inspectTail() (missing int64, err error) {
+	reader, err := a.o.backend.GetReader()
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return 0, nil
+		}
+
+		return 0, err
+	}
+	defer func() {
+		if e := a.o.backend.CloseReader(); e != nil && err == nil {
+			err = e
+		}
+	}()
+
+	if !reader.DriveIsRegular {
+		return 0, nil
+	}
+
+	tail, err := recovery.InspectTail(reader, a.o.pipes, int(a.lastIndexedRecord), int(a.lastIndexedBlock))
+	if err != nil {
+		return 0, err
+	}
+
+	if !tail.Reachable {
+		if a.lastIndexedRecord > 0 || a.lastIndexedBlock > 0 {
+			return 0, config.ErrIndexOutdated
+		}
+
+		a.offset = 0
+	}
+
+	if tail.Unindexed > len(a.o.unindexed) {
+		return 0, config.ErrIndexOutdated
+	}
+	a.unindexed = a.o.unindexed[len(a.o.unindexed)-tail.Unindexed:]
+
+	return tail.Missing, nil
+}
+
+// rollback closes the drive and restores its content if the headers have not been appended completely
+func (a *appender) rollback() {
+	if a.closed {
+		return
+	}
+	a.closed = true
+
+	if truncater, ok := a.writer.Drive.(interface{ Truncate(size int64) error }); ok && a.size >= 0 {
+		_ = truncater.Truncate(a.size)
+	}
+
+	_ = a.o.backend.CloseWriter()
+
+	if a.overwrite {
+		_ = a.o.metadata.Metadata.PurgeAllHeaders(context.Background())
+	}
+}
+
+// finish closes the drive and indexes the headers
+func (a *appender) finish(hdrs []*tar.Header, initializing bool, eventType string) error {
+	if err := a.cleanup(&a.dirty); err != nil {
+		return err
+	}
+
+	a.closed = true
+	a.o.unindexed = append(append([]*tar.Header{}, a.unindexed...), hdrs...)
+
+	if err := a.o.backend.CloseWriter(); err != nil {
+		return err
+	}
+
+	if err := a.index(initializing, eventType); err != nil {
+		return err
+	}
+
+	a.o.unindexed = nil
+
+	return nil
+}
+
+func (a *appender) index(initializing bool, eventType string) error {
+	reader, err := a.o.backend.GetReader()
+	if err != nil {
+		return err
+	}
+	defer a.o.backend.CloseReader()
+
+	hdrs := a.o.unindexed
+
+	return recovery.Index(
+		reader,
+		a.o.backend.MagneticTapeIO,
+		a.o.metadata,
+		a.o.pipes,
+		a.o.crypto,
+
+		int(a.lastIndexedRecord),
+		int(a.lastIndexedBlock),
+		a.overwrite,
+		initializing,
+		a.offset,
+
+		func(hdr *tar.Header, i int) error {
+			if len(hdrs) <= i {
+				return config.ErrTarHeaderMissing
+			}
+
+			*hdr = *hdrs[i]
+
+			return nil
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return nil // We sign above, no need to verify
+		},
+
+		func(hdr *config.Header) {
+			if a.o.onHeader == nil {
+				return
+			}
+
+			a.o.onHeader(&config.HeaderEvent{
+				Type:    eventType,
+				Indexed: true,
+				Header:  hdr,
+			})
+		},
+	)
+}
diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..187137b 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -2,7 +2,6 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"errors"
 	"io"
 	"strconv"
@@ -12,11 +11,9 @@ import (
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -42,26 +39,13 @@ func (o *Operations) archive(
 	overwrite bool,
 	initializing bool,
 ) ([]*tar.Header, error) {
-
-	writer, err := o.backend.GetWriter()
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
+	a, err := o.startAppending(overwrite)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
+	defer a.rollback()
 
-	lastIndexedRecord := int64(0)
-	lastIndexedBlock := int64(0)
-	if !overwrite {
-		lastIndexedRecord, lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-		if err != nil {
-			return []*tar.Header{}, err
-		}
-	}
+	writer, tw := a.writer, a.tw
 
 	hdrs := []*tar.Header{}
 	for {
@@ -191,7 +175,7 @@ func (o *Operations) archive(
 			return []*tar.Header{}, err
 		}
 
-		dirty = true
+		a.dirty = true
 
 		if !file.Info.Mode().IsRegular() || file.Info.Size() <= 0 {
 			if f != nil {
@@ -252,57 +236,9 @@ func (o *Operations) archive(
 		}
 	}
 
-	if err := cleanup(&dirty); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	index := 1 // Ignore the first header, which is the last header which we already indexed
-	if overwrite {
-		index = 0 // If we are starting fresh, index from start
-	}
-
-	if err := o.backend.CloseWriter(); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
+	if err := a.finish(hdrs, initializing, config.HeaderEventTypeArchive); err != nil {
 		return []*tar.Header{}, err
 	}
-	defer o.backend.CloseReader()
-
-	return hdrs, recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		overwrite,
-		initializing,
-		index,
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
 
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeArchive,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return hdrs, nil
 }
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..6044fdd 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -8,10 +8,8 @@ import (
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -21,21 +19,13 @@ func (o *Operations) Delete(name string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
+	a, err := o.startAppending(false)
 	if err != nil {
 		return err
 	}
+	defer a.rollback()
 
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
+	writer, tw := a.writer, a.tw
 
 	headersToDelete := []*config.Header{}
 	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), name)
@@ -62,7 +52,7 @@ func (o *Operations) Delete(name string) error {
 	}
 
 	// Append deletion hdrs to the tape or tar file
-	hdrs := []tar.Header{}
+	hdrs := []*tar.Header{}
 	for _, dbhdr := range headersToDelete {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -73,7 +63,8 @@ func (o *Operations) Delete(name string) error {
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
-		hdrs = append(hdrs, *hdr)
+		hdrToAppend := *hdr
+		hdrs = append(hdrs, &hdrToAppend)
 
 		if o.onHeader != nil {
 			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
@@ -100,55 +91,8 @@ func (o *Operations) Delete(name string) error {
 			return err
 		}
 
-		dirty = true
-	}
-
-	if err := cleanup(&dirty); err != nil {
-		return err
+		a.dirty = true
 	}
 
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return err
-	}
-	defer o.backend.CloseReader()
-
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeDelete,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return a.finish(hdrs, false, config.HeaderEventTypeDelete)
 }
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 035a859..7bbb9c7 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -10,10 +10,8 @@ import (
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -28,21 +26,13 @@ func (o *Operations) Move(from string, to string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
+	a, err := o.startAppending(false)
 	if err != nil {
 		return err
 	}
+	defer a.rollback()
 
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
-
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return err
-	}
+	writer, tw := a.writer, a.tw
 
 	headersToMove := []*config.Header{}
 	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), from)
@@ -79,7 +69,7 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	// Append move headers to the tape or tar file
-	hdrs := []tar.Header{}
+	hdrs := []*tar.Header{}
 	for _, dbhdr := range headersToMove {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -93,7 +83,8 @@ func (o *Operations) Move(from string, to string) error {
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
 		hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
 
-		hdrs = append(hdrs, *hdr)
+		hdrToAppend := *hdr
+		hdrs = append(hdrs, &hdrToAppend)
 
 		if o.onHeader != nil {
 			dbhdr, err := converters.TarHeaderToDBHeader(-1, -1, -1, -1, hdr)
@@ -120,55 +111,8 @@ func (o *Operations) Move(from string, to string) error {
 			return err
 		}
 
-		dirty = true
-	}
-
-	if err := cleanup(&dirty); err != nil {
-		return err
+		a.dirty = true
 	}
 
-	if err := o.backend.CloseWriter(); err != nil {
-		return err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return err
-	}
-	defer o.backend.CloseReader()
-
-	return recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeMove,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return a.finish(hdrs, false, config.HeaderEventTypeMove)
 }
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index c34b464..025f84b 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,6 +1,7 @@
 package operations
 
 import (
+	"archive/tar"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -16,6 +17,9 @@ type Operations struct {
 	onHeader func(event *config.HeaderEvent)
 
 	diskOperationLock sync.Mutex
+
+	// Headers which have been written by the last operation, but could not be indexed
+	unindexed []*tar.Header
 }
 
 func NewOperations(
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index d26f262..e82223a 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -2,7 +2,6 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"io"
 	"strconv"
 	"strings"
@@ -11,11 +10,9 @@ import (
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
-	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
-	"github.com/pojntfx/stfs/pkg/recovery"
 	"github.com/pojntfx/stfs/pkg/signature"
 )
 
@@ -28,21 +25,13 @@ func (o *Operations) Update(
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
-	writer, err := o.backend.GetWriter()
+	a, err := o.startAppending(false)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
+	defer a.rollback()
 
-	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-	if err != nil {
-		return []*tar.Header{}, err
-	}
+	writer, tw := a.writer, a.tw
 
 	hdrs := []*tar.Header{}
 	for {
@@ -183,7 +172,7 @@ func (o *Operations) Update(
 				return []*tar.Header{}, err
 			}
 
-			dirty = true
+			a.dirty = true
 
 			if !file.Info.Mode().IsRegular() || (!skipSizeCheck && file.Info.Size() <= 0) {
 				if f != nil {
@@ -275,55 +264,12 @@ func (o *Operations) Update(
 			}
 		}
 
-		dirty = true
+		a.dirty = true
 	}
 
-	if err := cleanup(&dirty); err != nil {
+	if err := a.finish(hdrs, false, config.HeaderEventTypeUpdate); err != nil {
 		return []*tar.Header{}, err
 	}
 
-	if err := o.backend.CloseWriter(); err != nil {
-		return []*tar.Header{}, err
-	}
-
-	reader, err := o.backend.GetReader()
-	if err != nil {
-		return []*tar.Header{}, err
-	}
-	defer o.backend.CloseReader()
-
-	return hdrs, recovery.Index(
-		reader,
-		o.backend.MagneticTapeIO,
-		o.metadata,
-		o.pipes,
-		o.crypto,
-
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
-		false,
-		false,
-		1, // Ignore the first header, which is the last header which we already indexed
-
-		func(hdr *tar.Header, i int) error {
-			if len(hdrs) <= i {
-				return config.ErrTarHeaderMissing
-			}
-
-			*hdr = *hdrs[i]
-
-			return nil
-		},
-		func(hdr *tar.Header, isRegular bool) error {
-			return nil // We sign above, no need to verify
-		},
-
-		func(hdr *config.Header) {
-			o.onHeader(&config.HeaderEvent{
-				Type:    config.HeaderEventTypeUpdate,
-				Indexed: true,
-				Header:  hdr,
-			})
-		},
-	)
+	return hdrs, nil
 }
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 819cee1..94ceb39 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -276,8 +276,12 @@ func indexHeader(
 			}
 
 			// To support re-indexing, we need to ignore headers that don't exist (anymore)
-			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
-				return err
+			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil {
+				if err != sql.ErrNoRows {
+					return err
+				}
+
+				return indexUnknownHeader(record, block, hdr, hdr.Name, metadataPersister)
 			}
 		case records.STFSRecordActionUpdate:
 			moveAfterEdits := false
@@ -287,6 +291,16 @@ func indexHeader(
 				oldName = hdr.PAXRecords[records.STFSRecordReplacesName]
 			}
 
+			oldHdr, err := metadataPersister.GetHeader(context.Background(), oldName)
+			if err != nil {
+				if err != sql.ErrNoRows {
+					return err
+				}
+
+				// To support ignoring previous `Move` operations, we need to ignore non-existent headers here, as moving changes the primary keys
+				return indexUnknownHeader(record, block, hdr, oldName, metadataPersister)
+			}
+
 			var newHdr *models.Header
 			if replacesContent, ok := hdr.PAXRecords[records.STFSRecordReplacesContent]; ok && replacesContent == records.STFSRecordReplacesContentTrue {
 				// Content & metadata update; use the new record & block
@@ -302,25 +316,17 @@ func indexHeader(
 				}
 			} else {
 				// Metadata-only update; use the old record & block
-				oldHdr, err := metadataPersister.GetHeader(context.Background(), oldName)
-				if err == nil {
-					h, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
-					if err != nil {
-						return err
-					}
-
-					newHdr = h
+				h, err := converters.TarHeaderToDBHeader(oldHdr.Record, record, oldHdr.Block, block, hdr)
+				if err != nil {
+					return err
+				}
 
-					// The content stays the same
-					newHdr.Size = oldHdr.Size
+				newHdr = h
 
-					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
-						return err
-					}
-				}
+				// The content stays the same
+				newHdr.Size = oldHdr.Size
 
-				// To support ignoring previous `Move` operations, we need to ignore non-existent headers here, as moving changes the primary keys
-				if err != nil && err != sql.ErrNoRows {
+				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 					return err
 				}
 			}
@@ -342,6 +348,24 @@ func indexHeader(
 	return nil
 }
 
+// indexUnknownHeader makes sure that a record which changed a header that doesn't exist (anymore) counts as indexed
+func indexUnknownHeader(
+	record, block int64,
+	hdr *tar.Header,
+	name string,
+	metadataPersister config.MetadataPersister,
+) error {
+	dbhdr, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
+	if err != nil {
+		return err
+	}
+
+	dbhdr.Name = name
+	dbhdr.Deleted = 1
+
+	return metadataPersister.UpsertHeader(context.Background(), converters.DBHeaderToConfigHeader(dbhdr), false)
+}
+
 // hasContent checks if a record has been written for its content instead of just its metadata
 func hasContent(hdr *tar.Header) bool {
 	switch hdr.PAXRecords[records.STFSRecordAction] {
diff --git a/pkg/recovery/tail.go b/pkg/recovery/tail.go
new file mode 100644
index 0000000..80a631f
--- /dev/null
+++ b/pkg/recovery/tail.go
@@ -0,0 +1,144 @@
+package recovery
+
+import (
+	"archive/tar"
+	"io"
+	"io/ioutil"
+	"strings"
+
+	"github.com/pojntfx/stfs/internal/ioext"
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// Tail describes the end of a regular drive
+type Tail struct {
+	// Empty is true if there is nothing on the drive yet
+	Empty bool
+	// Reachable is true if the last indexed record is still on the drive
+	Reachable bool
+	// Unindexed is the count of records which follow the last indexed one
+	Unindexed int
+	// Missing is the count of zero bytes which have to precede the next archive so that
+	// a write which has been cut off before does not affect the records that follow it
+	Missing int64
+}
+
+// InspectTail finds out how a regular drive ends after the last indexed record
+func InspectTail(
+	reader config.DriveReaderConfig,
+	pipes config.PipeConfig,
+
+	record int,
+	block int,
+) (*Tail, error) {
+	size, err := reader.Drive.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+
+	if size == 0 {
+		return &Tail{Empty: true}, nil
+	}
+
+	tail := &Tail{}
+
+	// Start of the record that is being looked at
+	curr := getOffset(pipes.RecordSize, int64(record), int64(block))
+	first := curr
+	// Everything before this has been a record
+	end := int64(0)
+	// The drive's size if it were to consist of whole blocks only
+	alignedSize := alignToBlock(size)
+
+	for curr < size {
+		if _, err := reader.Drive.Seek(curr, io.SeekStart); err != nil {
+			return nil, err
+		}
+
+		// Pad the last block, just like it would be if something were to be appended
+		counter := &ioext.CounterReader{
+			Reader: io.MultiReader(
+				reader.Drive,
+				strings.NewReader(strings.Repeat("\x00", int(alignedSize-size))),
+			),
+			BytesRead: int(curr),
+		}
+		tr := tar.NewReader(counter)
+
+		hdr, err := tr.Next()
+		if err != nil {
+			if !isNoRecord(err) {
+				return nil, err
+			}
+
+			curr += config.MagneticTapeBlockSize
+
+			continue
+		}
+
+		if curr == first {
+			tail.Reachable = true
+		} else if hdr.Typeflag != tar.TypeXGlobalHeader {
+			tail.Unindexed++
+		}
+
+		next := alignToBlock(int64(counter.BytesRead) + hdr.Size)
+		if isSparse(hdr) {
+			// The size is not the one on the drive
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil && !isNoRecord(err) {
+				return nil, err
+			}
+
+			next = alignToBlock(int64(counter.BytesRead))
+		}
+
+		curr = next
+		end = next
+	}
+
+	if end > alignedSize {
+		// The last record's content has been cut off
+		tail.Missing = end - size
+	} else {
+		tail.Missing = alignedSize - size
+	}
+
+	// Count the trailing zero blocks
+	zeros := int64(0)
+	for pos := alignedSize - config.MagneticTapeBlockSize; pos >= end && zeros < 2; pos -= config.MagneticTapeBlockSize {
+		if _, err := reader.Drive.Seek(pos, io.SeekStart); err != nil {
+			return nil, err
+		}
+
+		buf := make([]byte, config.MagneticTapeBlockSize)
+		if _, err := io.ReadFull(reader.Drive, buf); err != nil && err != io.ErrUnexpectedEOF {
+			return nil, err
+		}
+
+		if strings.Trim(string(buf), "\x00") != "" {
+			break
+		}
+
+		zeros++
+	}
+
+	if zeros < 2 {
+		tail.Missing += (2 - zeros) * config.MagneticTapeBlockSize
+	}
+
+	return tail, nil
+}
+
+func isSparse(hdr *tar.Header) bool {
+	if hdr.Typeflag == tar.TypeGNUSparse {
+		return true
+	}
+
+	for key := range hdr.PAXRecords {
+		if strings.HasPrefix(key, "GNU.sparse.") {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 84384529eff6ab95efed2934d614a6363f481947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 06/33] fix: let the memory write cache overwrite, truncate and
 report its size like a file

---
 pkg/cache/buffer.go | 95 +++++++++++++++++++++++++++++++++++++++++++++
 pkg/cache/write.go  | 22 +----------
 2 files changed, 96 insertions(+), 21 deletions(-)
 create mode 100644 pkg/cache/buffer.go

diff --git a/pkg/cache/buffer.go b/pkg/cache/buffer.go
new file mode 100644
index 0000000..57b9f61
--- /dev/null
+++ b/pkg/cache/buffer.go
@@ -0,0 +1,95 @@
+package cache
+
+import (
+	"io"
+	"os"
+)
+
+// memoryBuffer is a file which lives in memory
+type memoryBuffer struct {
+	content []byte
+	offset  int64
+}
+
+func (b *memoryBuffer) Read(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
+	if b.offset >= int64(len(b.content)) {
+		return 0, io.EOF
+	}
+
+	n = copy(p, b.content[b.offset:])
+	b.offset += int64(n)
+
+	return n, nil
+}
+
+func (b *memoryBuffer) Write(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
+	if end := b.offset + int64(len(p)); end > int64(len(b.content)) {
+		if err := b.Truncate(end); err != nil {
+			return 0, err
+		}
+	}
+
+	n = copy(b.content[b.offset:], p)
+	b.offset += int64(n)
+
+	return n, nil
+}
+
+func (b *memoryBuffer) Seek(offset int64, whence int) (int64, error) {
+	switch whence {
+	case io.SeekStart:
+	case io.SeekCurrent:
+		offset += b.offset
+	case io.SeekEnd:
+		offset += int64(len(b.content))
+	default:
+		return 0, os.ErrInvalid
+	}
+
+	if offset < 0 {
+		return 0, os.ErrInvalid
+	}
+
+	b.offset = offset
+
+	return offset, nil
+}
+
+func (b *memoryBuffer) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	if size <= int64(len(b.content)) {
+		b.content = b.content[:size]
+
+		return nil
+	}
+
+	// The space after the content could still have previous content in it
+	b.content = append(b.content, make([]byte, size-int64(len(b.content)))...)
+
+	return nil
+}
+
+func (b *memoryBuffer) Size() (int64, error) {
+	return int64(len(b.content)), nil
+}
+
+func (b *memoryBuffer) Sync() error {
+	// No need to sync a in-memory buffer
+	return nil
+}
+
+func (b *memoryBuffer) Close() error {
+	// No need to close a in-memory buffer
+	return nil
+}
diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..d1789c1 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -5,7 +5,6 @@ import (
 	"os"
 	"path/filepath"
 
-	"github.com/mattetti/filebuffer"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/spf13/afero"
 )
@@ -23,32 +22,13 @@ func (f fileWithSize) Size() (int64, error) {
 	return info.Size(), nil
 }
 
-type filebufferWithSize struct {
-	*filebuffer.Buffer
-}
-
-func (f filebufferWithSize) Size() (int64, error) {
-	return int64(f.Buff.Len()), nil
-}
-
-func (f filebufferWithSize) Sync() error {
-	// No need to sync a in-memory buffer
-	return nil
-}
-
-func (f filebufferWithSize) Truncate(size int64) error {
-	f.Buff.Truncate(int(size))
-
-	return nil
-}
-
 func NewCacheWrite(
 	root string,
 	cacheType string,
 ) (cache WriteCache, cleanup func() error, err error) {
 	switch cacheType {
 	case config.WriteCacheTypeMemory:
-		buff := &filebufferWithSize{filebuffer.New([]byte{})}
+		buff := &memoryBuffer{}
 
 		return buff, func() error {
 			buff = nil
-- 
2.43.0


From a5de932f6a3e818b3d491305bfbaa9414b871859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 07/33] fix: fetch empty content without decrypting,
 decompressing and verifying it

---
 pkg/recovery/fetch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..9be0c9e 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -102,6 +102,11 @@ func Fetch(
 			return nil
 		}
 
+		// There is nothing to decrypt, decompress or verify if there is no content
+		if hdr.Size == 0 {
+			return dstFile.Close()
+		}
+
 		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
 		if err != nil {
 			return err
-- 
2.43.0


From 2729a822ba8a4ca04539476ead6ab9c88a0333bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 08/33] fix: reject PGP header signatures that can't be decoded

---
 pkg/signature/verify.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..0c37ce1 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -157,27 +157,27 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
 		if !ok {
-			return nil
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From 30711c71f2639e28f8c13a1b0482b2c8422f8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 09/33] fix: don't parse PGP identities with a password other
 than theirs

---
 pkg/keys/identity.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..ea174d2 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -43,20 +43,27 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
-					return nil, config.ErrIdentityUnparsable
-				}
+		for _, identity := range identities {
+			if identity.PrivateKey == nil {
+				return nil, config.ErrIdentityUnparsable
+			}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
-					return nil, err
-				}
+			// The private key needs to be protected exactly if there is a password for it
+			if identity.PrivateKey.Encrypted != (password != "") {
+				return nil, config.ErrIdentityUnparsable
+			}
 
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
+			if password == "" {
+				continue
+			}
+
+			if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				return nil, err
+			}
+
+			for _, subkey := range identity.Subkeys {
+				if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
+					return nil, err
 				}
 			}
 		}
-- 
2.43.0


From d88d2c021155f8f8046d40e3c3654a91f37cdd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 10/33] fix: move headers no matter how the source is spelled
 and move links instead of their targets

---
 pkg/operations/move.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 7bbb9c7..a9b2a43 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -35,6 +35,7 @@ func (o *Operations) Move(from string, to string) error {
 	writer, tw := a.writer, a.tw
 
 	headersToMove := []*config.Header{}
+	isLink := false
 	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), from)
 	if err != nil {
 		if err == sql.ErrNoRows {
@@ -42,11 +43,14 @@ func (o *Operations) Move(from string, to string) error {
 			if err != nil {
 				return err
 			}
+
+			isLink = true
 		} else {
 			return err
 		}
 	}
 	headersToMove = append(headersToMove, dbhdr)
+	source := dbhdr.Name
 
 	// Prevent moving from relative to absolute path
 	if path.IsAbs(to) && !path.IsAbs(dbhdr.Name) {
@@ -59,8 +63,8 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	// If the header refers to a directory, get it's children
-	if dbhdr.Typeflag == tar.TypeDir {
-		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), from)
+	if dbhdr.Typeflag == tar.TypeDir && !isLink {
+		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), source)
 		if err != nil {
 			return err
 		}
@@ -68,8 +72,7 @@ func (o *Operations) Move(from string, to string) error {
 		headersToMove = append(headersToMove, dbhdrs...)
 	}
 
-	// Append move headers to the tape or tar file
-	hdrs := []*tar.Header{}
+	hdrsToAppend := []*tar.Header{}
 	for _, dbhdr := range headersToMove {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -77,12 +80,37 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
+
+		// Links share their name with what they are linking to, so replace the link itself
+		if isLink {
+			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
+
+			newHdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
+			if err != nil {
+				return err
+			}
+
+			newHdr.Linkname = to
+			newHdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
+			newHdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionCreate
+
+			hdrsToAppend = append(hdrsToAppend, hdr, newHdr)
+
+			continue
+		}
+
+		hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, source))
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
 		hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
 
+		hdrsToAppend = append(hdrsToAppend, hdr)
+	}
+
+	// Append move headers to the tape or tar file
+	hdrs := []*tar.Header{}
+	for _, hdr := range hdrsToAppend {
 		hdrToAppend := *hdr
 		hdrs = append(hdrs, &hdrToAppend)
 
-- 
2.43.0


From 06ca2512a8710c23c10f43f047b4bbb499fb81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 11/33] fix: let file handles read, write, seek and truncate
 like POSIX files and report errors instead of panicking

---
 internal/ioext/read.go |  13 ++
 pkg/fs/file.go         | 506 ++++++++++++++++++-----------------------
 2 files changed, 233 insertions(+), 286 deletions(-)
 create mode 100644 internal/ioext/read.go

diff --git a/internal/ioext/read.go b/internal/ioext/read.go
new file mode 100644
index 0000000..c322292
--- /dev/null
+++ b/internal/ioext/read.go
@@ -0,0 +1,13 @@
+package ioext
+
+import "io"
+
+type NopReadSeekCloser struct {
+	io.ReadSeeker
+}
+
+func (NopReadSeekCloser) Close() error { return nil }
+
+func AddCloseNopToReadSeeker(r io.ReadSeeker) NopReadSeekCloser {
+	return NopReadSeekCloser{r}
+}
diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..03dc974 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,14 +1,12 @@
 package fs
 
 import (
-	"bytes"
 	"database/sql"
 	"io"
 	"io/fs"
 	"os"
 	"path"
 	"sync"
-	"time"
 
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/pathext"
@@ -48,11 +46,9 @@ type File struct {
 
 	ioLock *sync.Mutex
 
-	readOpReader *ioext.CounterReadCloser
-	readOpWriter io.WriteCloser
-
 	writeBuf      cache.WriteCache
 	cleanWriteBuf func() error
+	dirty         bool
 
 	onHeader func(hdr *config.Header)
 	log      logging.StructuredLogger
@@ -109,67 +105,72 @@ func (f *File) syncWithoutLocking() error {
 		return config.ErrIsDirectory
 	}
 
-	if f.writeBuf != nil {
-		done := false
-		if _, err := f.writeOps.Update(
-			func() (config.FileConfig, error) {
-				// Exit after the first write
-				if done {
-					return config.FileConfig{}, io.EOF
-				}
-				done = true
-
-				size, err := f.writeBuf.Size()
-				if err != nil {
-					return config.FileConfig{}, err
-				}
-
-				// Some OSes like i.e. Windows don't support numeric GIDs and UIDs, so use 0 instead
-				gid := 0
-				uid := 0
-				modTime := f.info.ModTime()
-				accessTime := f.info.ModTime()
-				changeTime := f.info.ModTime()
-				sys, ok := f.info.Sys().(*Stat)
-				if ok {
-					gid = int(sys.Gid)
-					uid = int(sys.Uid)
-					accessTime = time.Unix(0, sys.Atim.Nano())
-					changeTime = time.Unix(0, sys.Ctim.Nano())
-				}
-
-				f.info = NewFileInfo(
-					f.info.Name(),
-					size,
-					f.info.Mode(),
-					modTime,
-					accessTime,
-					changeTime,
-					gid,
-					uid,
-					f.info.IsDir(),
-					f.log,
-				)
-
-				return config.FileConfig{
-					GetFile: func() (io.ReadSeekCloser, error) {
-						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-							return nil, err
-						}
-
-						return f.writeBuf, nil
-					},
-					Info: f.info,
-					Path: f.path,
-					Link: f.link,
-				}, nil
-			},
-			f.compressionLevel,
-			true,
-			true,
-		); err != nil {
-			return err
+	if f.writeBuf == nil || !f.dirty {
+		return nil
+	}
+
+	// Only the content changes, so keep everything else that is known about the file
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		f.path,
+		false,
+
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
+
+		return err
+	}
+
+	hdr.Size, err = f.writeBuf.Size()
+	if err != nil {
+		return err
+	}
+
+	offset, err := f.writeBuf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	done := false
+	if _, err := f.writeOps.Update(
+		func() (config.FileConfig, error) {
+			// Exit after the first write
+			if done {
+				return config.FileConfig{}, io.EOF
+			}
+			done = true
+
+			return config.FileConfig{
+				GetFile: func() (io.ReadSeekCloser, error) {
+					if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
+						return nil, err
+					}
+
+					// Don't close the write buffer here, we want to re-use it!
+					return ioext.AddCloseNopToReadSeeker(f.writeBuf), nil
+				},
+				Info: hdr.FileInfo(),
+				Path: hdr.Name,
+				Link: hdr.Linkname,
+			}, nil
+		},
+		f.compressionLevel,
+		true,
+		true,
+	); err != nil {
+		return err
+	}
+
+	f.dirty = false
+	f.info.size = hdr.Size
+
+	if _, err := f.writeBuf.Seek(offset, io.SeekStart); err != nil {
+		return err
 	}
 
 	return nil
@@ -180,112 +181,129 @@ func (f *File) closeWithoutLocking() error {
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil {
-		if err := f.readOpReader.Close(); err != nil {
-			return err
-		}
+	if f.writeBuf == nil {
+		return nil
 	}
 
-	if f.readOpWriter != nil {
-		if err := f.readOpWriter.Close(); err != nil {
-			return err
-		}
+	// The write buffer needs to be removed even if it could not be synced
+	err := f.syncWithoutLocking()
+
+	if e := f.removeWriteBuf(); e != nil && err == nil {
+		err = e
 	}
 
-	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
-		if err := f.syncWithoutLocking(); err != nil {
-			return err
-		}
+	return err
+}
 
-		if err := f.cleanWriteBuf(); err != nil {
-			return err
-		}
+func (f *File) removeWriteBuf() error {
+	err := f.writeBuf.Close()
+
+	if e := f.cleanWriteBuf(); e != nil && err == nil {
+		err = e
 	}
 
-	f.readOpReader = nil
-	f.readOpWriter = nil
 	f.writeBuf = nil
+	f.cleanWriteBuf = nil
+	f.dirty = false
+
+	return err
+}
+
+func (f *File) createWriteBuf() error {
+	getFileBuffer := f.getFileBuffer
+	if getFileBuffer == nil {
+		// File systems which are never written to don't have to provide a write cache
+		getFileBuffer = func() (cache.WriteCache, func() error, error) {
+			return cache.NewCacheWrite(os.TempDir(), config.WriteCacheTypeFile)
+		}
+	}
+
+	writeBuf, cleanWriteBuf, err := getFileBuffer()
+	if err != nil {
+		return err
+	}
+
+	f.writeBuf = writeBuf
+	f.cleanWriteBuf = cleanWriteBuf
 
 	return nil
 }
 
-func (f *File) enterWriteMode() error {
-	f.log.Trace("File.enterWriteMode", map[string]interface{}{
+// loadWriteBuf makes the file's content available in the write buffer
+func (f *File) loadWriteBuf() error {
+	f.log.Trace("File.loadWriteBuf", map[string]interface{}{
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil || f.readOpWriter != nil {
-		if err := f.closeWithoutLocking(); err != nil {
-			return err
-		}
+	if f.writeBuf != nil {
+		return nil
 	}
 
-	if f.writeBuf == nil {
-		exists := false
-		existingFile, err := inventory.Stat(
-			f.metadata,
+	existingFile, err := inventory.Stat(
+		f.metadata,
 
-			f.path,
-			false,
+		f.path,
+		false,
 
-			f.onHeader,
-		)
-		if err == nil {
-			if existingFile.Size != 0 {
-				exists = true
-			}
-		} else {
-			if err != sql.ErrNoRows {
-				return err
-			}
+		f.onHeader,
+	)
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
 		}
 
-		// Create new buffer
-		writeBuf, cleanWriteBuf, err := f.getFileBuffer()
-		if err != nil {
-			return err
-		}
+		return err
+	}
 
-		f.writeBuf = writeBuf
-		f.cleanWriteBuf = cleanWriteBuf
+	if err := f.createWriteBuf(); err != nil {
+		return err
+	}
 
-		// Read existing file into buffer
-		if exists {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					// Don't close the file here, we want to re-use it!
-					return ioext.AddCloseNopToWriter(f.writeBuf), nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
+	// Read existing file into buffer
+	if existingFile.Size != 0 {
+		if err := f.readOps.Restore(
+			func(path string, mode fs.FileMode) (io.WriteCloser, error) {
+				// Don't close the file here, we want to re-use it!
+				return ioext.AddCloseNopToWriter(f.writeBuf), nil
+			},
+			func(path string, mode fs.FileMode) error {
+				// Not necessary; can't read on a directory
+				return nil
+			},
 
-				f.path,
-				"",
-				true,
-			); err != nil {
-				return err
-			}
-		}
+			f.path,
+			"",
+			true,
+		); err != nil {
+			_ = f.removeWriteBuf()
 
-		if f.flags.Truncate {
-			if err := f.writeBuf.Truncate(0); err != nil {
-				return err
-			}
+			return err
 		}
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
+		if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
+			_ = f.removeWriteBuf()
+
+			return err
 		}
 	}
 
 	return nil
 }
 
+// truncateWithoutLocking removes the file's content when opening it
+func (f *File) truncateWithoutLocking() error {
+	f.log.Trace("File.truncateWithoutLocking", map[string]interface{}{
+		"name": f.name,
+	})
+
+	if err := f.createWriteBuf(); err != nil {
+		return err
+	}
+	f.dirty = true
+
+	return f.closeWithoutLocking()
+}
+
 func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 	f.log.Trace("File.seekWithoutLocking", map[string]interface{}{
 		"name":   f.name,
@@ -298,82 +316,41 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 		return 0, nil
 	}
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Seek(offset, whence)
-	}
-
-	dst := int64(0)
 	switch whence {
-	case io.SeekStart:
-		dst = offset
-	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
-		}
-		dst = int64(curr) + offset
-	case io.SeekEnd:
-		dst = f.info.Size() - offset
+	case io.SeekStart, io.SeekCurrent, io.SeekEnd:
 	default:
 		return -1, config.ErrNotImplemented
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
-
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
+	if err := f.loadWriteBuf(); err != nil {
+		return -1, err
+	}
 
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
+	return f.writeBuf.Seek(offset, whence)
+}
 
-		f.readOpReader = reader
-		f.readOpWriter = writer
+// atOffset does something at an offset in the write buffer without moving the file's own offset
+func (f *File) atOffset(offset int64, do func() (int, error)) (n int, err error) {
+	if offset < 0 {
+		return -1, os.ErrInvalid
 	}
 
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
+	curr, err := f.writeBuf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return -1, err
 	}
 
-	if err != nil {
+	if _, err := f.writeBuf.Seek(offset, io.SeekStart); err != nil {
 		return -1, err
 	}
 
-	return written, nil
+	n, err = do()
+
+	if _, e := f.writeBuf.Seek(curr, io.SeekStart); e != nil && (err == nil || err == io.EOF) {
+		return -1, e
+	}
+
+	return n, err
 }
 
 // Inventory
@@ -417,15 +394,14 @@ func (f *File) Stat() (os.FileInfo, error) {
 		f.info.size = size
 	}
 
-	if f.link != "" {
-		info := f.info
+	// The info must not change after it has been returned
+	info := *f.info
 
+	if f.link != "" {
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
@@ -440,6 +416,7 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 	if !f.info.IsDir() {
 		return []os.FileInfo{}, config.ErrIsFile
 	}
+
 	hdrs, err := inventory.List(
 		f.metadata,
 
@@ -505,55 +482,11 @@ func (f *File) Read(p []byte) (n int, err error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Read(p)
-	}
-
-	if f.readOpReader == nil || f.readOpWriter == nil {
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
-
-	w := &bytes.Buffer{}
-	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
-	}
-
-	if err != nil {
+	if err := f.loadWriteBuf(); err != nil {
 		return -1, err
 	}
 
-	return copy(p, w.Bytes()), nil
+	return f.writeBuf.Read(p)
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -575,11 +508,21 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		return -1, config.ErrIsDirectory
 	}
 
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
+	if err := f.loadWriteBuf(); err != nil {
 		return -1, err
 	}
 
-	return f.Read(p)
+	return f.atOffset(off, func() (int, error) {
+		n, err := io.ReadFull(f.writeBuf, p)
+		if err == io.ErrUnexpectedEOF {
+			return n, io.EOF
+		}
+
+		return n, err
+	})
 }
 
 // Read/write operations
@@ -614,10 +557,22 @@ func (f *File) Write(p []byte) (n int, err error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
+	return f.writeWithoutLocking(p)
+}
+
+func (f *File) writeWithoutLocking(p []byte) (n int, err error) {
+	if err := f.loadWriteBuf(); err != nil {
 		return -1, err
 	}
 
+	if f.flags.Append {
+		if _, err := f.writeBuf.Seek(0, io.SeekEnd); err != nil {
+			return -1, err
+		}
+	}
+
+	f.dirty = true
+
 	n, err = f.writeBuf.Write(p)
 	if err != nil {
 		return -1, err
@@ -644,15 +599,15 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
+	if err := f.loadWriteBuf(); err != nil {
 		return -1, err
 	}
 
-	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
-	}
+	return f.atOffset(off, func() (int, error) {
+		f.dirty = true
 
-	return f.writeBuf.Write(p)
+		return f.writeBuf.Write(p)
+	})
 }
 
 func (f *File) WriteString(s string) (ret int, err error) {
@@ -672,11 +627,7 @@ func (f *File) WriteString(s string) (ret int, err error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	return f.writeBuf.Write([]byte(s))
+	return f.writeWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -696,34 +647,17 @@ func (f *File) Truncate(size int64) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return err
+	if size < 0 {
+		return os.ErrInvalid
 	}
 
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
+	if err := f.loadWriteBuf(); err != nil {
 		return err
 	}
 
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
-
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
-	}
-
-	if err := f.writeBuf.Truncate(size); err != nil {
-		return err
-	}
+	f.dirty = true
 
-	return nil
+	return f.writeBuf.Truncate(size)
 }
 
 // Cleanup operations
-- 
2.43.0


From e060b4d85bda0fd901ddd22fda1da0ce94fd34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:33 +0000
Subject: [PATCH 12/33] fix: check parents, targets and flags before changing
 the tree and never wipe an existing drive on initialization

---
 pkg/fs/filesystem.go | 290 +++++++++++++++++++++++++++----------------
 1 file changed, 182 insertions(+), 108 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..6b422c8 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -96,14 +97,20 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if _, err := inventory.Stat(
+	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+}
+
+// statParentWithoutLocking gets the directory in which a header with the name would be
+func (f *STFS) statParentWithoutLocking(name string) (*tar.Header, error) {
+	parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
 		false,
 
 		f.onHeader,
-	); err != nil {
+	)
+	if err != nil {
 		if err == sql.ErrNoRows {
 			return nil, os.ErrNotExist
 		}
@@ -111,7 +118,12 @@ func (f *STFS) Create(name string) (afero.File, error) {
 		return nil, err
 	}
 
-	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+	// The root is always a directory
+	if parent.Typeflag != tar.TypeDir && !pathext.IsRoot(filepath.ToSlash(filepath.Dir(name)), false) {
+		return nil, config.ErrIsFile
+	}
+
+	return parent, nil
 }
 
 func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, overwrite bool, linkname string, initializing bool) error {
@@ -167,7 +179,7 @@ func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, ove
 		Name:     name,
 		Linkname: linkname,
 
-		Mode:  int64(perm),
+		Mode:  getTarMode(perm),
 		Uid:   uid,
 		Gid:   gid,
 		Uname: usr.Username,
@@ -211,66 +223,113 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == config.ErrNoRootDirectory {
-		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
+	root, err = f.metadata.Metadata.GetRootPath(context.Background())
+	if err != nil && err != config.ErrNoRootDirectory {
+		return "", err
+	}
+	exists := err == nil
 
-			if f.readOnly {
-				return "", os.ErrPermission
-			}
+	if exists && f.readOnly {
+		return root, nil
+	}
 
-			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
-				return "", err
-			}
+	empty, err := f.indexWithoutLocking(exists)
+	if err != nil {
+		if !errors.Is(err, os.ErrNotExist) {
+			return "", err
+		}
 
-			// Ensure that the new root path is being used
-			return f.metadata.Metadata.GetRootPath(context.Background())
+		// There is no drive yet
+		if exists {
+			return root, nil
 		}
 
-		reader, err := f.readOps.GetBackend().GetReader()
-		if err != nil {
-			return mkdirRoot()
+		empty = true
+	}
+
+	// Ensure that the new root path is being used
+	root, err = f.metadata.Metadata.GetRootPath(context.Background())
+	if err != config.ErrNoRootDirectory {
+		return root, err
+	}
+
+	// Never replace what is on the drive already
+	if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, empty, "", true); err != nil {
+		return "", err
+	}
+
+	return f.metadata.Metadata.GetRootPath(context.Background())
+}
+
+// indexWithoutLocking indexes everything on the drive which has not been indexed yet
+func (f *STFS) indexWithoutLocking(indexed bool) (empty bool, err error) {
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		return false, err
+	}
+	defer func() {
+		if e := f.readOps.GetBackend().CloseReader(); e != nil && err == nil {
+			err = e
 		}
+	}()
 
-		if err := recovery.Index(
-			reader,
-			f.readOps.GetBackend().MagneticTapeIO,
-			f.readOps.GetMetadata(),
-			f.readOps.GetPipes(),
-			f.readOps.GetCrypto(),
+	record, block, offset := int64(0), int64(0), 0
+	if reader.DriveIsRegular {
+		record, block, err = f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+		if err != nil {
+			return false, err
+		}
 
-			0,
-			0,
-			true,
-			false,
-			0,
+		tail, err := recovery.InspectTail(reader, f.readOps.GetPipes(), int(record), int(block))
+		if err != nil {
+			return false, err
+		}
+		empty = tail.Empty
 
-			func(hdr *tar.Header, i int) error {
-				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
-			},
-			func(hdr *tar.Header, isRegular bool) error {
-				return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
-			},
+		if indexed && tail.Reachable {
+			if tail.Unindexed <= 0 {
+				return empty, nil
+			}
 
-			f.onHeader,
-		); err != nil {
-			return mkdirRoot()
+			offset = 1 // Ignore the first header, which is the last header which we already indexed
+		} else {
+			// The index does not belong to what is on the drive
+			indexed, record, block = false, 0, 0
 		}
+	} else if indexed {
+		return false, nil
+	}
 
-		if err := f.readOps.GetBackend().CloseReader(); err != nil {
-			return "", err
+	if err := recovery.Index(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetMetadata(),
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		int(record),
+		int(block),
+		!indexed,
+		false,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
+		},
+
+		f.onHeader,
+	); err != nil {
+		if !indexed {
+			_ = f.metadata.Metadata.PurgeAllHeaders(context.Background())
 		}
 
-		// Ensure that the new root path is being used
-		return f.metadata.Metadata.GetRootPath(context.Background())
-	} else if err != nil {
-		return "", err
+		return empty, err
 	}
 
-	return existingRoot, nil
+	return empty, nil
 }
 
 func (f *STFS) Mkdir(name string, perm os.FileMode) error {
@@ -288,18 +347,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if _, err := f.statParentWithoutLocking(name); err != nil {
 		return err
 	}
 
@@ -343,15 +391,14 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
+	parts := strings.Split(strings.TrimPrefix(filepath.ToSlash(path), "/"), "/")
 	currentPath := ""
+	if filepath.IsAbs(path) {
+		currentPath = "/"
+	}
 
 	for _, part := range parts {
-		if currentPath == "" {
-			currentPath = part
-		} else {
-			currentPath = filepath.Join(currentPath, part)
-		}
+		currentPath = filepath.Join(currentPath, part)
 
 		if hdr, err := inventory.Stat(
 			f.metadata,
@@ -445,6 +492,8 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	exclusive := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0
+
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -464,20 +513,19 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 				f.onHeader,
 			)
 
-			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
-						f.metadata,
+			if err == nil && exclusive {
+				return nil, os.ErrExist
+			}
 
-						filepath.Dir(name),
-						false,
+			createFile := func() error {
+				if f.readOnly && flag&os.O_CREATE != 0 {
+					return os.ErrPermission
+				}
 
-						f.onHeader,
-					); err != nil {
-						if err == sql.ErrNoRows {
-							return os.ErrNotExist
-						}
+				if flag&os.O_CREATE != 0 {
+					exclusive = false // The file does not exist yet
 
+					if _, err := f.statParentWithoutLocking(name); err != nil {
 						return err
 					}
 
@@ -568,12 +616,16 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	if exclusive {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
 	}
 
-	return NewFile(
+	file := NewFile(
 		f.readOps,
 		f.writeOps,
 
@@ -592,7 +644,15 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 		f.onHeader,
 		f.log,
-	), nil
+	)
+
+	if flags.Write && flags.Truncate && hdr.Size > 0 {
+		if err := file.truncateWithoutLocking(); err != nil {
+			return nil, err
+		}
+	}
+
+	return file, nil
 }
 
 func (f *STFS) Remove(name string) error {
@@ -718,7 +778,8 @@ func (f *STFS) Rename(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname {
+	root, err := f.metadata.Metadata.GetRootPath(context.Background())
+	if err != nil {
 		return os.ErrInvalid
 	}
 
@@ -752,21 +813,21 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
+	if source.Name == root {
+		return os.ErrInvalid
+	}
 
+	parent, err := f.statParentWithoutLocking(newname)
+	if err != nil {
 		return err
 	}
 
+	// Directories can't be moved into themselves
+	if source.Typeflag == tar.TypeDir && source.Linkname == "" &&
+		(parent.Name == source.Name || strings.HasPrefix(parent.Name, source.Name+"/")) {
+		return os.ErrInvalid
+	}
+
 	target, err := inventory.Stat(
 		f.metadata,
 
@@ -776,6 +837,11 @@ func (f *STFS) Rename(oldname, newname string) error {
 		f.onHeader,
 	)
 	if err == nil {
+		// Nothing to do
+		if target.Name == source.Name {
+			return nil
+		}
+
 		if target.Typeflag != source.Typeflag {
 			return os.ErrExist
 		}
@@ -783,7 +849,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 		if err := f.removeWithoutLocking(newname); err != nil {
 			return err
 		}
-
+	} else if err != sql.ErrNoRows {
 		return err
 	}
 
@@ -929,7 +995,7 @@ func (f *STFS) Chmod(name string, mode os.FileMode) error {
 		}
 	}
 
-	hdr.Mode = int64(mode)
+	hdr.Mode = getTarMode(mode)
 
 	return f.updateMetadata(hdr)
 }
@@ -1139,6 +1205,9 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return os.ErrInvalid
 	}
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	var err error
 	rawOldName := oldname
 	oldname, err = f.resolveCleanName(oldname, true)
@@ -1152,21 +1221,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return err
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if _, err := f.statParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
@@ -1231,3 +1286,22 @@ func (f *STFS) resolveCleanName(name string, aliasRoot bool) (string, error) {
 func cleanName(name string) string {
 	return filepath.Clean(name)
 }
+
+// getTarMode converts the permissions, which are not the same as the ones of tar archives if they are special
+func getTarMode(mode os.FileMode) int64 {
+	tarMode := int64(mode.Perm())
+
+	if mode&os.ModeSetuid != 0 {
+		tarMode |= 04000
+	}
+
+	if mode&os.ModeSetgid != 0 {
+		tarMode |= 02000
+	}
+
+	if mode&os.ModeSticky != 0 {
+		tarMode |= 01000
+	}
+
+	return tarMode
+}
-- 
2.43.0


From ffc0afb349b0063cbcb0f4b82977d8465e779716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 13/33] fix: keep PGP-encrypted content readable by
 decompressors which read past its end

---
 internal/ioext/eof.go     | 23 +++++++++++++++++++++++
 pkg/encryption/decrypt.go |  4 +++-
 2 files changed, 26 insertions(+), 1 deletion(-)
 create mode 100644 internal/ioext/eof.go

diff --git a/internal/ioext/eof.go b/internal/ioext/eof.go
new file mode 100644
index 0000000..1b2a11a
--- /dev/null
+++ b/internal/ioext/eof.go
@@ -0,0 +1,23 @@
+package ioext
+
+import "io"
+
+// StickyEOFReader keeps returning `io.EOF` once the reader below it has been read completely
+type StickyEOFReader struct {
+	Reader io.Reader
+
+	done bool
+}
+
+func (r *StickyEOFReader) Read(p []byte) (n int, err error) {
+	if r.done {
+		return 0, io.EOF
+	}
+
+	n, err = r.Reader.Read(p)
+	if err == io.EOF {
+		r.done = true
+	}
+
+	return n, err
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index fcc6517..1e36205 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -9,6 +9,7 @@ import (
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -42,7 +43,8 @@ func Decrypt(
 			return nil, err
 		}
 
-		return io.NopCloser(r.UnverifiedBody), nil
+		// The body's integrity can only be checked once, so don't read from it again after its end
+		return io.NopCloser(&ioext.StickyEOFReader{Reader: r.UnverifiedBody}), nil
 	case config.NoneKey:
 		return io.NopCloser(src), nil
 	default:
-- 
2.43.0


From a0e35458e1ede338f08a3ed6ad0e0ad9380f8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 14/33] fix: initialize blank tapes

---
 pkg/fs/filesystem.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 6b422c8..7544010 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -298,6 +298,22 @@ func (f *STFS) indexWithoutLocking(indexed bool) (empty bool, err error) {
 		}
 	} else if indexed {
 		return false, nil
+	} else {
+		mt := f.readOps.GetBackend().MagneticTapeIO
+
+		if err := mt.GoToEndOfTape(reader.Drive.Fd()); err != nil {
+			return false, err
+		}
+
+		last, err := mt.GetCurrentRecordFromTape(reader.Drive.Fd())
+		if err != nil {
+			return false, err
+		}
+
+		if last <= 0 {
+			// There is nothing on the tape which could be indexed
+			return true, nil
+		}
 	}
 
 	if err := recovery.Index(
-- 
2.43.0


From 70df95dd8189ca708d216e36dcbfc71f4bebfa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:29 +0000
Subject: [PATCH 15/33] fix: split content up in the same way when measuring
 and when writing it

---
 pkg/operations/archive.go | 22 ++++------------------
 pkg/operations/copy.go    | 38 ++++++++++++++++++++++++++++++++++++++
 pkg/operations/update.go  | 22 ++++------------------
 3 files changed, 46 insertions(+), 36 deletions(-)
 create mode 100644 pkg/operations/copy.go

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 187137b..8dc41de 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -104,15 +104,8 @@ func (o *Operations) archive(
 				return []*tar.Header{}, err
 			}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
-				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
-				}
+			if err := copyContent(compressor, signer, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+				return []*tar.Header{}, err
 			}
 
 			if err := compressor.Flush(); err != nil {
@@ -208,15 +201,8 @@ func (o *Operations) archive(
 			return []*tar.Header{}, err
 		}
 
-		if writer.DriveIsRegular {
-			if _, err := io.Copy(compressor, f); err != nil {
-				return []*tar.Header{}, err
-			}
-		} else {
-			buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-			if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
-				return []*tar.Header{}, err
-			}
+		if err := copyContent(compressor, f, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+			return []*tar.Header{}, err
 		}
 
 		if err := compressor.Flush(); err != nil {
diff --git a/pkg/operations/copy.go b/pkg/operations/copy.go
new file mode 100644
index 0000000..8b92a69
--- /dev/null
+++ b/pkg/operations/copy.go
@@ -0,0 +1,38 @@
+package operations
+
+import (
+	"io"
+
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+const regularChunkSize = 32 * 1024
+
+// copyContent copies content in chunks of the same size, no matter how the source hands it out; compressed
+// and encrypted sizes depend on the chunks, so they have to be the same each time the content is being read
+func copyContent(dst io.Writer, src io.Reader, driveIsRegular bool, recordSize int) error {
+	chunkSize := regularChunkSize
+	if !driveIsRegular {
+		chunkSize = config.MagneticTapeBlockSize * recordSize
+	}
+
+	buf, filled := make([]byte, chunkSize), 0
+	for {
+		n, err := src.Read(buf[filled:])
+		filled += n
+
+		if filled == len(buf) || (err == io.EOF && filled > 0) {
+			if _, err := dst.Write(buf[:filled]); err != nil {
+				return err
+			}
+
+			filled = 0
+		}
+
+		if err == io.EOF {
+			return nil
+		} else if err != nil {
+			return err
+		}
+	}
+}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index e82223a..95d49f6 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -98,15 +98,8 @@ func (o *Operations) Update(
 				return []*tar.Header{}, err
 			}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
-				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
-				}
+			if err := copyContent(compressor, signer, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+				return []*tar.Header{}, err
 			}
 
 			if err := compressor.Flush(); err != nil {
@@ -205,15 +198,8 @@ func (o *Operations) Update(
 				return []*tar.Header{}, err
 			}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, f); err != nil {
-					return []*tar.Header{}, err
-				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
-					return []*tar.Header{}, err
-				}
+			if err := copyContent(compressor, f, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+				return []*tar.Header{}, err
 			}
 
 			if err := compressor.Flush(); err != nil {
-- 
2.43.0


From e60a6230c6a9d5e0fb3337e1ce98acbea6805689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:17 +0000
Subject: [PATCH 16/33] fix: report content which has been cut off instead of
 restoring it as empty

---
 pkg/recovery/fetch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 9be0c9e..4604740 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -137,6 +137,11 @@ func Fetch(
 			return err
 		}
 
+		// Decompressors may take content which has been cut off for empty content
+		if _, err := io.Copy(io.Discard, tr); err != nil {
+			return err
+		}
+
 		if err := decryptor.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From 9c2914c9c32075de811e7c4ddf73bb5e84b5aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:10 +0000
Subject: [PATCH 17/33] fix: don't move links which have been created after a
 move when replaying it

---
 pkg/persisters/metadata.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 4e06dc0..3d6cd3d 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -201,20 +201,32 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	}
 	defer tx.Rollback()
 
+	// If the tape is being replayed, links which have been created after the move must stay where they are
+	movable := fmt.Sprintf(
+		`%v = ? and %v != 1 and (%v < ? or (%v = ? and %v <= ?))`,
+		models.HeaderColumns.Name,
+		models.HeaderColumns.Deleted,
+		models.HeaderColumns.Lastknownrecord,
+		models.HeaderColumns.Lastknownrecord,
+		models.HeaderColumns.Lastknownblock,
+	)
+
 	// Replace headers which have the new name already, i.e. ones which have been deleted before
 	if _, err := queries.Raw(
 		fmt.Sprintf(
-			`delete from %v where %v = ? and %v in (select %v from %v where %v = ? and %v != 1);`,
+			`delete from %v where %v = ? and %v in (select %v from %v where %v);`,
 			models.TableNames.Headers,
 			models.HeaderColumns.Name,
 			models.HeaderColumns.Linkname,
 			models.HeaderColumns.Linkname,
 			models.TableNames.Headers,
-			models.HeaderColumns.Name,
-			models.HeaderColumns.Deleted,
+			movable,
 		),
 		newName,
 		oldName,
+		lastknownrecord,
+		lastknownrecord,
+		lastknownblock,
 	).ExecContext(ctx, tx); err != nil {
 		return err
 	}
@@ -222,18 +234,20 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	// We can't do this with `dbhdr.Update` because we are renaming the primary key
 	if _, err := queries.Raw(
 		fmt.Sprintf(
-			`update %v set %v = ?, %v = ?, %v = ? where %v = ? and %v != 1;`,
+			`update %v set %v = ?, %v = ?, %v = ? where %v;`,
 			models.TableNames.Headers,
 			models.HeaderColumns.Name,
 			models.HeaderColumns.Lastknownrecord,
 			models.HeaderColumns.Lastknownblock,
-			models.HeaderColumns.Name,
-			models.HeaderColumns.Deleted,
+			movable,
 		),
 		newName,
 		lastknownrecord,
 		lastknownblock,
 		oldName,
+		lastknownrecord,
+		lastknownrecord,
+		lastknownblock,
 	).ExecContext(ctx, tx); err != nil {
 		return err
 	}
-- 
2.43.0


From 5d8e0395d716b8a8e7e12404c824a4b4e300bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 18/33] fix: index records whose last zero bytes have been cut
 off before they are completed

---
 pkg/recovery/index.go |  2 +-
 pkg/recovery/tail.go  | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 94ceb39..e4c73f2 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -71,7 +71,7 @@ func Index(
 				return err
 			}
 
-			tr := tar.NewReader(reader.Drive)
+			tr := tar.NewReader(padToBlock(reader.Drive, size))
 
 			hdr, err := tr.Next()
 			if err != nil {
diff --git a/pkg/recovery/tail.go b/pkg/recovery/tail.go
index 80a631f..e5f1d8b 100644
--- a/pkg/recovery/tail.go
+++ b/pkg/recovery/tail.go
@@ -55,12 +55,8 @@ func InspectTail(
 			return nil, err
 		}
 
-		// Pad the last block, just like it would be if something were to be appended
 		counter := &ioext.CounterReader{
-			Reader: io.MultiReader(
-				reader.Drive,
-				strings.NewReader(strings.Repeat("\x00", int(alignedSize-size))),
-			),
+			Reader:    padToBlock(reader.Drive, size),
 			BytesRead: int(curr),
 		}
 		tr := tar.NewReader(counter)
@@ -129,6 +125,14 @@ func InspectTail(
 	return tail, nil
 }
 
+// padToBlock completes a drive's last block, just like it would be if something were to be appended
+func padToBlock(drive io.Reader, size int64) io.Reader {
+	return io.MultiReader(
+		drive,
+		strings.NewReader(strings.Repeat("\x00", int(alignToBlock(size)-size))),
+	)
+}
+
 func isSparse(hdr *tar.Header) bool {
 	if hdr.Typeflag == tar.TypeGNUSparse {
 		return true
-- 
2.43.0


From b247ec4a92e63c6dccb8d6cd0652e310bdb5bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:27 +0000
Subject: [PATCH 19/33] fix: refuse to truncate files while opening them
 read-only

---
 pkg/fs/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 7544010..87c455e 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -636,6 +636,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		return nil, os.ErrExist
 	}
 
+	// Prevent truncating while opening
+	if f.readOnly && (flag&O_ACCMODE) != os.O_RDONLY && flag&os.O_TRUNC != 0 {
+		return nil, os.ErrPermission
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
-- 
2.43.0


From 68cc1aa95a56522ed7d8203e86f9c23b28aea8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 20/33] fix: unlock PGP identities which are protected with an
 empty password

---
 pkg/keys/identity.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index ea174d2..dce10f7 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -48,12 +48,12 @@ func ParseIdentity(
 				return nil, config.ErrIdentityUnparsable
 			}
 
-			// The private key needs to be protected exactly if there is a password for it
-			if identity.PrivateKey.Encrypted != (password != "") {
-				return nil, config.ErrIdentityUnparsable
-			}
+			// There can't be a password for private keys which are not protected; an empty password protects them too
+			if !identity.PrivateKey.Encrypted {
+				if password != "" {
+					return nil, config.ErrIdentityUnparsable
+				}
 
-			if password == "" {
 				continue
 			}
 
-- 
2.43.0


From a528da7077ab6adb299ebea1e7ff45bd867eeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 21/33] fix: don't restore unsigned content which follows the
 header of a link

---
 pkg/recovery/fetch.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 4604740..0a4ca09 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -93,17 +93,9 @@ func Fetch(
 			return err
 		}
 
-		// Don't decompress non-regular files
-		if !hdr.FileInfo().Mode().IsRegular() {
-			if _, err := io.Copy(dstFile, tr); err != nil {
-				return err
-			}
-
-			return nil
-		}
-
-		// There is nothing to decrypt, decompress or verify if there is no content
-		if hdr.Size == 0 {
+		// Non-regular files have no content, and there is nothing to decrypt, decompress or verify if there is none;
+		// whatever follows such a header on the tape isn't covered by it's signature
+		if !hdr.FileInfo().Mode().IsRegular() || hdr.Size == 0 {
 			return dstFile.Close()
 		}
 
-- 
2.43.0


From c5d943173811238a1810b70357fc4cebbb1aaf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 22/33] fix: don't report the end of a file if its content on
 the tape ends early

---
 pkg/fs/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 03dc974..450d3f3 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -277,6 +277,11 @@ func (f *File) loadWriteBuf() error {
 		); err != nil {
 			_ = f.removeWriteBuf()
 
+			// The content ending early must not be mistaken for the end of the file
+			if err == io.EOF {
+				return io.ErrUnexpectedEOF
+			}
+
 			return err
 		}
 
-- 
2.43.0


From 3f5d10b2d6d4791bf6d2423fdfdce7bb59cf26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 23/33] fix: don't list a name twice when links are created or
 entries are moved onto existing links

---
 pkg/fs/filesystem.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 87c455e..6389151 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -870,7 +870,21 @@ func (f *STFS) Rename(oldname, newname string) error {
 		if err := f.removeWithoutLocking(newname); err != nil {
 			return err
 		}
-	} else if err != sql.ErrNoRows {
+	} else if err == sql.ErrNoRows {
+		// Replace existing links
+		if _, err := inventory.Stat(
+			f.metadata,
+
+			newname,
+			true,
+
+			f.onHeader,
+		); err == nil && newname != oldname {
+			if err := f.removeWithoutLocking(newname); err != nil {
+				return err
+			}
+		}
+	} else {
 		return err
 	}
 
@@ -1261,6 +1275,17 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		); err == nil {
 			return os.ErrExist
 		}
+
+		if _, err := inventory.Stat(
+			f.metadata,
+
+			newname,
+			true,
+
+			f.onHeader,
+		); err == nil {
+			return os.ErrExist
+		}
 	}
 
 	return f.mknodeWithoutLocking(false, oldname, os.ModePerm, false, newname, false)
-- 
2.43.0


From 6b232ef422705d30775252b08ac33818428b9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 24/33] fix: delete and move entries of archives which weren't
 written in the PAX format

---
 pkg/operations/delete.go | 1 +
 pkg/operations/move.go   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 6044fdd..d01e15c 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -60,6 +60,7 @@ func (o *Operations) Delete(name string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index a9b2a43..fda0944 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -80,6 +80,7 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 
 		// Links share their name with what they are linking to, so replace the link itself
@@ -91,6 +92,7 @@ func (o *Operations) Move(from string, to string) error {
 				return err
 			}
 
+			newHdr.Format = tar.FormatPAX
 			newHdr.Linkname = to
 			newHdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 			newHdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionCreate
-- 
2.43.0


From 954df0e33e3f97896d40f1ce39c5acb1efa03bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 25/33] fix: list links with the attributes of what they are
 linking to

All links in a directory were listed with the attributes of the root directory, as their target's name wasn't queried
---
 pkg/persisters/metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 3d6cd3d..b680c98 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -399,8 +399,8 @@ where substr(%v, 1, length(?)) = ?
 			models.HeaderColumns.Lastknownblock,
 			models.HeaderColumns.Deleted,
 			models.HeaderColumns.Typeflag,
-			pk,
-			exclude,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Linkname,
 			models.HeaderColumns.Size,
 			models.HeaderColumns.Mode,
 			models.HeaderColumns.UID,
-- 
2.43.0


From 0123fad5ab6628bc47b9f34fcbbb5cafbe03b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 26/33] fix: find links no matter how the path they were
 created with is spelled

The name of a link was stored as it had been spelled, so relative links could be listed but not looked up
---
 pkg/persisters/metadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index b680c98..3d79135 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -135,6 +135,9 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 		}
 
 		hdr.Name = name
+		if hdr.Linkname != "" {
+			hdr.Linkname = p.getSanitizedPath(ctx, idbhdr.Linkname)
+		}
 	}
 
 	if _, err := models.Headers(
@@ -165,6 +168,9 @@ func (p *MetadataPersister) UpdateHeaderMetadata(ctx context.Context, dbhdr *con
 
 	hdr := *idbhdr
 	hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+	if hdr.Linkname != "" {
+		hdr.Linkname = p.getSanitizedPath(ctx, idbhdr.Linkname)
+	}
 
 	// Deleted headers must not come back because they are being updated
 	exists, err := models.Headers(
-- 
2.43.0


From 184b5ee41dbccd99a3f616ffb64f5c499394ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 27/33] fix: remove and move links along with the directory
 they are in

Removing or moving a directory left the links in it behind without a parent, and removing one also removed links
which are somewhere else, but link into it. Restoring a directory overwrote restored files with what links to them
---
 pkg/operations/delete.go     | 14 +++---------
 pkg/operations/move.go       | 42 ++++++++++++++++++++----------------
 pkg/operations/operations.go | 19 ++++++++++++++++
 pkg/operations/restore.go    | 10 ++++++++-
 pkg/persisters/metadata.go   | 14 +++++++++++-
 5 files changed, 68 insertions(+), 31 deletions(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index d01e15c..8b12ac2 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -3,7 +3,6 @@ package operations
 import (
 	"archive/tar"
 	"context"
-	"database/sql"
 	"path/filepath"
 
 	"github.com/pojntfx/stfs/internal/converters"
@@ -28,21 +27,14 @@ func (o *Operations) Delete(name string) error {
 	writer, tw := a.writer, a.tw
 
 	headersToDelete := []*config.Header{}
-	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), name)
+	dbhdr, isLink, err := o.getHeaderOrLink(name)
 	if err != nil {
-		if err == sql.ErrNoRows {
-			dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), name)
-			if err != nil {
-				return err
-			}
-		} else {
-			return err
-		}
+		return err
 	}
 	headersToDelete = append(headersToDelete, dbhdr)
 
 	// If the header refers to a directory, get it's children
-	if dbhdr.Typeflag == tar.TypeDir && dbhdr.Linkname == "" {
+	if dbhdr.Typeflag == tar.TypeDir && !isLink {
 		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), name)
 		if err != nil {
 			return err
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index fda0944..ae45080 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -3,7 +3,6 @@ package operations
 import (
 	"archive/tar"
 	"context"
-	"database/sql"
 	"path"
 	"path/filepath"
 	"strings"
@@ -35,22 +34,15 @@ func (o *Operations) Move(from string, to string) error {
 	writer, tw := a.writer, a.tw
 
 	headersToMove := []*config.Header{}
-	isLink := false
-	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), from)
+	dbhdr, isLink, err := o.getHeaderOrLink(from)
 	if err != nil {
-		if err == sql.ErrNoRows {
-			dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), from)
-			if err != nil {
-				return err
-			}
-
-			isLink = true
-		} else {
-			return err
-		}
+		return err
 	}
 	headersToMove = append(headersToMove, dbhdr)
 	source := dbhdr.Name
+	if isLink {
+		source = dbhdr.Linkname
+	}
 
 	// Prevent moving from relative to absolute path
 	if path.IsAbs(to) && !path.IsAbs(dbhdr.Name) {
@@ -73,6 +65,14 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	hdrsToAppend := []*tar.Header{}
+	linkHdrsToAppend := []*tar.Header{}
+	newNames := map[string]string{}
+	for _, dbhdr := range headersToMove {
+		if dbhdr.Linkname == "" {
+			newNames[dbhdr.Name] = path.Join(to, strings.TrimPrefix(dbhdr.Name, source))
+		}
+	}
+
 	for _, dbhdr := range headersToMove {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -84,7 +84,7 @@ func (o *Operations) Move(from string, to string) error {
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 
 		// Links share their name with what they are linking to, so replace the link itself
-		if isLink {
+		if dbhdr.Linkname != "" {
 			hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
 			newHdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
@@ -93,16 +93,22 @@ func (o *Operations) Move(from string, to string) error {
 			}
 
 			newHdr.Format = tar.FormatPAX
-			newHdr.Linkname = to
+			newHdr.Linkname = path.Join(to, strings.TrimPrefix(dbhdr.Linkname, source))
 			newHdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 			newHdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionCreate
 
-			hdrsToAppend = append(hdrsToAppend, hdr, newHdr)
+			// Links follow what they are linking to if it is being moved too
+			if newName, ok := newNames[dbhdr.Name]; ok {
+				hdr.Name = newName
+				newHdr.Name = newName
+			}
+
+			linkHdrsToAppend = append(linkHdrsToAppend, hdr, newHdr)
 
 			continue
 		}
 
-		hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, source))
+		hdr.Name = newNames[dbhdr.Name]
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
 		hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
@@ -112,7 +118,7 @@ func (o *Operations) Move(from string, to string) error {
 
 	// Append move headers to the tape or tar file
 	hdrs := []*tar.Header{}
-	for _, hdr := range hdrsToAppend {
+	for _, hdr := range append(hdrsToAppend, linkHdrsToAppend...) {
 		hdrToAppend := *hdr
 		hdrs = append(hdrs, &hdrToAppend)
 
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index 025f84b..b23094b 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -2,6 +2,8 @@ package operations
 
 import (
 	"archive/tar"
+	"context"
+	"database/sql"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -57,3 +59,20 @@ func (o *Operations) GetPipes() config.PipeConfig {
 func (o *Operations) GetCrypto() config.CryptoConfig {
 	return o.crypto
 }
+
+// getHeaderOrLink returns the header or, if there is none, the link with a name
+func (o *Operations) getHeaderOrLink(name string) (dbhdr *config.Header, isLink bool, err error) {
+	dbhdr, err = o.metadata.Metadata.GetHeader(context.Background(), name)
+	if err == nil && dbhdr.Linkname == "" {
+		return dbhdr, false, nil
+	}
+
+	// Links share their name with what they are linking to, so broken links to the name don't count
+	if err != nil && err != sql.ErrNoRows {
+		return nil, false, err
+	}
+
+	dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), name)
+
+	return dbhdr, true, err
+}
diff --git a/pkg/operations/restore.go b/pkg/operations/restore.go
index 65c8ebd..3902075 100644
--- a/pkg/operations/restore.go
+++ b/pkg/operations/restore.go
@@ -42,6 +42,9 @@ func (o *Operations) Restore(
 			return err
 		}
 	}
+	if dbhdr.Linkname != "" {
+		return sql.ErrNoRows // Broken links to the name don't count
+	}
 	headersToRestore = append(headersToRestore, dbhdr)
 
 	// If the header refers to a directory, get it's children
@@ -51,7 +54,12 @@ func (o *Operations) Restore(
 			return err
 		}
 
-		headersToRestore = append(headersToRestore, dbhdrs...)
+		for _, dbhdr := range dbhdrs {
+			// Links have no content of their own
+			if dbhdr.Linkname == "" {
+				headersToRestore = append(headersToRestore, dbhdr)
+			}
+		}
 	}
 
 	reader, err := o.backend.GetReader()
diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 3d79135..b1f8932 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -322,8 +322,16 @@ func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string)
 		directory = ""
 	}
 
+	// Links are where their link name says, not where what they are linking to is
+	location := fmt.Sprintf(
+		"case when %v = '' then %v else %v end",
+		models.HeaderColumns.Linkname,
+		models.HeaderColumns.Name,
+		models.HeaderColumns.Linkname,
+	)
+
 	headers, err := models.Headers(
-		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", directory, directory),
+		qm.Where("substr("+location+", 1, length(?)) = ?", directory, directory),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -333,6 +341,10 @@ func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string)
 	outhdrs := []*config.Header{}
 	for _, hdr := range headers {
 		prefix := strings.TrimSuffix(hdr.Name, "/")
+		if hdr.Linkname != "" {
+			prefix = strings.TrimSuffix(hdr.Linkname, "/")
+		}
+
 		if name != prefix && name != prefix+"/" {
 			outhdrs = append(outhdrs, converters.DBHeaderToConfigHeader(hdr))
 		}
-- 
2.43.0


From bd48862b8929dd16ba2df2ced38b1dadc34aaf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 28/33] fix: don't list a name twice if a file is created in
 place of a link, don't create directories below links

---
 pkg/fs/filesystem.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 6389151..3537089 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -413,7 +413,7 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 		currentPath = "/"
 	}
 
-	for _, part := range parts {
+	for i, part := range parts {
 		currentPath = filepath.Join(currentPath, part)
 
 		if hdr, err := inventory.Stat(
@@ -440,8 +440,8 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 					} else {
 						return err
 					}
-				} else if hdr.Typeflag != tar.TypeDir {
-					return config.ErrIsFile
+				} else if hdr.Typeflag != tar.TypeDir || i < len(parts)-1 {
+					return config.ErrIsFile // Links can't be the parent of another entry
 				}
 			} else {
 				return err
@@ -556,6 +556,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 						if target.Typeflag == tar.TypeDir {
 							return config.ErrIsDirectory
 						}
+
+						// The file takes the place of the link
+						if err := f.writeOps.Delete(name); err != nil {
+							return err
+						}
 					}
 
 					if err := f.mknodeWithoutLocking(false, name, perm, false, "", false); err != nil {
-- 
2.43.0


From e8191bb714d9fab4849a25490ebe28fd5e462a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 29/33] fix: keep names which aren't valid UTF-8 in signed and
 encrypted headers

---
 internal/converters/embedded.go | 70 +++++++++++++++++++++++++++++++++
 pkg/encryption/decrypt.go       |  8 ++--
 pkg/encryption/encrypt.go       |  4 +-
 pkg/signature/sign.go           |  4 +-
 pkg/signature/verify.go         |  8 ++--
 5 files changed, 82 insertions(+), 12 deletions(-)
 create mode 100644 internal/converters/embedded.go

diff --git a/internal/converters/embedded.go b/internal/converters/embedded.go
new file mode 100644
index 0000000..3974f7a
--- /dev/null
+++ b/internal/converters/embedded.go
@@ -0,0 +1,70 @@
+package converters
+
+import (
+	"archive/tar"
+	"encoding/json"
+	"unicode/utf8"
+)
+
+// embeddedHeader is a header as it is embedded in another one; JSON can only represent valid UTF-8,
+// so strings which aren't are kept separately
+type embeddedHeader struct {
+	*tar.Header
+
+	RawStrings    map[string][]byte `json:",omitempty"`
+	RawPAXRecords map[string][]byte `json:",omitempty"`
+}
+
+func (h *embeddedHeader) strings() map[string]*string {
+	return map[string]*string{
+		"Name":     &h.Name,
+		"Linkname": &h.Linkname,
+		"Uname":    &h.Uname,
+		"Gname":    &h.Gname,
+	}
+}
+
+// MarshalEmbeddedHeader serializes a header so that it can be embedded in another one
+func MarshalEmbeddedHeader(hdr *tar.Header) ([]byte, error) {
+	embedded := &embeddedHeader{
+		Header:        hdr,
+		RawStrings:    map[string][]byte{},
+		RawPAXRecords: map[string][]byte{},
+	}
+
+	for key, value := range embedded.strings() {
+		if !utf8.ValidString(*value) {
+			embedded.RawStrings[key] = []byte(*value)
+		}
+	}
+
+	for key, value := range hdr.PAXRecords {
+		if !utf8.ValidString(value) {
+			embedded.RawPAXRecords[key] = []byte(value)
+		}
+	}
+
+	return json.Marshal(embedded)
+}
+
+// UnmarshalEmbeddedHeader gets a header which has been serialized with MarshalEmbeddedHeader
+func UnmarshalEmbeddedHeader(data []byte) (*tar.Header, error) {
+	embedded := &embeddedHeader{Header: &tar.Header{}}
+	if err := json.Unmarshal(data, embedded); err != nil {
+		return nil, err
+	}
+
+	for key, value := range embedded.strings() {
+		if raw, ok := embedded.RawStrings[key]; ok {
+			*value = string(raw)
+		}
+	}
+
+	for key, raw := range embedded.RawPAXRecords {
+		if _, ok := embedded.PAXRecords[key]; ok {
+			embedded.PAXRecords[key] = string(raw)
+		}
+	}
+
+	return embedded.Header, nil
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index 1e36205..4f6616a 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -4,11 +4,11 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -75,12 +75,12 @@ func DecryptHeader(
 		return err
 	}
 
-	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	newHdr, err := converters.UnmarshalEmbeddedHeader([]byte(embeddedHeader))
+	if err != nil {
 		return err
 	}
 
-	*hdr = newHdr
+	*hdr = *newHdr
 
 	return nil
 }
diff --git a/pkg/encryption/encrypt.go b/pkg/encryption/encrypt.go
index dca3a09..96664b7 100644
--- a/pkg/encryption/encrypt.go
+++ b/pkg/encryption/encrypt.go
@@ -4,11 +4,11 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -56,7 +56,7 @@ func EncryptHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := converters.MarshalEmbeddedHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 6aa2e65..d7ef6b5 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -4,12 +4,12 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -101,7 +101,7 @@ func SignHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := converters.MarshalEmbeddedHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 0c37ce1..21bc791 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -4,12 +4,12 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -116,12 +116,12 @@ func VerifyHeader(
 		return err
 	}
 
-	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	newHdr, err := converters.UnmarshalEmbeddedHeader([]byte(embeddedHeader))
+	if err != nil {
 		return err
 	}
 
-	*hdr = newHdr
+	*hdr = *newHdr
 
 	return nil
 }
-- 
2.43.0


From b92fc08a01183aebeb833afd3f38a8de096a605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 30/33] fix: write whole records to tape drives, instead of
 records which are larger than what is read back

---
 internal/ioext/record.go | 51 ++++++++++++++++++++++++++++++++++++++++
 internal/tarext/write.go | 19 ++++-----------
 2 files changed, 56 insertions(+), 14 deletions(-)
 create mode 100644 internal/ioext/record.go

diff --git a/internal/ioext/record.go b/internal/ioext/record.go
new file mode 100644
index 0000000..b274ccb
--- /dev/null
+++ b/internal/ioext/record.go
@@ -0,0 +1,51 @@
+package ioext
+
+import "io"
+
+// RecordWriter only writes whole records, as every write to a tape drive is a record of its own
+type RecordWriter struct {
+	writer io.Writer
+
+	record []byte
+	size   int
+	err    error
+}
+
+func NewRecordWriter(writer io.Writer, recordSize int) *RecordWriter {
+	return &RecordWriter{writer, make([]byte, 0, recordSize), recordSize, nil}
+}
+
+func (w *RecordWriter) Write(p []byte) (n int, err error) {
+	for len(p) > 0 && w.err == nil {
+		c := w.size - len(w.record)
+		if c > len(p) {
+			c = len(p)
+		}
+
+		w.record = append(w.record, p[:c]...)
+		n += c
+		p = p[c:]
+
+		if len(w.record) == w.size {
+			w.writeRecord()
+		}
+	}
+
+	return n, w.err
+}
+
+// Flush fills the last record with zeros and writes it
+func (w *RecordWriter) Flush() error {
+	if len(w.record) > 0 && w.err == nil {
+		w.record = append(w.record, make([]byte, w.size-len(w.record))...)
+
+		w.writeRecord()
+	}
+
+	return w.err
+}
+
+func (w *RecordWriter) writeRecord() {
+	_, w.err = w.writer.Write(w.record)
+	w.record = w.record[:0]
+}
diff --git a/internal/tarext/write.go b/internal/tarext/write.go
index af6a251..25f56bb 100644
--- a/internal/tarext/write.go
+++ b/internal/tarext/write.go
@@ -2,7 +2,6 @@ package tarext
 
 import (
 	"archive/tar"
-	"bufio"
 	"io"
 
 	"github.com/pojntfx/stfs/internal/ioext"
@@ -10,14 +9,12 @@ import (
 )
 
 func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer, cleanup func(dirty *bool) error, err error) {
-	var bw *bufio.Writer
-	var counter *ioext.CounterWriter
+	var rw *ioext.RecordWriter
 	if isRegular {
 		tw = tar.NewWriter(f)
 	} else {
-		bw = bufio.NewWriterSize(f, config.MagneticTapeBlockSize*recordSize)
-		counter = &ioext.CounterWriter{Writer: bw, BytesRead: 0}
-		tw = tar.NewWriter(counter)
+		rw = ioext.NewRecordWriter(f, config.MagneticTapeBlockSize*recordSize)
+		tw = tar.NewWriter(rw)
 	}
 
 	return tw, func(dirty *bool) error {
@@ -28,14 +25,8 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 			}
 
 			if !isRegular {
-				if config.MagneticTapeBlockSize*recordSize-counter.BytesRead > 0 {
-					// Fill the rest of the record with zeros
-					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-counter.BytesRead)); err != nil {
-						return err
-					}
-				}
-
-				if err := bw.Flush(); err != nil {
+				// Fill the rest of the record with zeros
+				if err := rw.Flush(); err != nil {
 					return err
 				}
 			}
-- 
2.43.0


From a7400ae29a51b9ea745d67f3eeb6f1a91a183fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 31/33] fix: restore tape drives after failed calls and skip
 over torn archives on them

---
 pkg/operations/append.go | 29 ++++++++++++++++++++++++++++-
 pkg/recovery/index.go    |  4 ++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/pkg/operations/append.go b/pkg/operations/append.go
index 0ea37a1..d7a4c77 100644
--- a/pkg/operations/append.go
+++ b/pkg/operations/append.go
@@ -32,6 +32,7 @@ type appender struct {
 
 	closed bool
 	size   int64 // -1 if the drive can't be restored
+	record int64 // Same as `size`, but for tape drives
 }
 
 // startAppending opens the drive; every successful call needs to be followed by `rollback`
@@ -41,7 +42,8 @@ func (o *Operations) startAppending(overwrite bool) (*appender, error) {
 
 		overwrite: overwrite,
 
-		size: -1,
+		size:   -1,
+		record: -1,
 	}
 
 	missing := int64(0)
@@ -79,6 +81,10 @@ func (o *Operations) startAppending(overwrite bool) (*appender, error) {
 		if missing > 0 {
 			drive = &ioext.PaddedWriter{Writer: writer.Drive, Missing: missing}
 		}
+	} else if fder, ok := writer.Drive.(interface{ Fd() uintptr }); ok {
+		if record, err := o.backend.MagneticTapeIO.GetCurrentRecordFromTape(fder.Fd()); err == nil {
+			a.record = record
+		}
 	}
 
 	a.tw, a.cleanup, err = tarext.NewTapeWriter(drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -143,6 +149,8 @@ func (a *appender) rollback() {
 		_ = truncater.Truncate(a.size)
 	}
 
+	a.rollbackTape()
+
 	_ = a.o.backend.CloseWriter()
 
 	if a.overwrite {
@@ -150,6 +158,25 @@ func (a *appender) rollback() {
 	}
 }
 
+// rollbackTape replaces what has been written to a tape with an empty record, as tapes can't be truncated
+func (a *appender) rollbackTape() {
+	fder, ok := a.writer.Drive.(interface{ Fd() uintptr })
+	if !ok || a.record < 0 {
+		return
+	}
+
+	mt := a.o.backend.MagneticTapeIO
+	if curr, err := mt.GetCurrentRecordFromTape(fder.Fd()); err == nil && curr == a.record {
+		return
+	}
+
+	if err := mt.SeekToRecordOnTape(fder.Fd(), int32(a.record)); err != nil {
+		return
+	}
+
+	_, _ = a.writer.Drive.Write(make([]byte, config.MagneticTapeBlockSize*a.o.pipes.RecordSize))
+}
+
 // finish closes the drive and indexes the headers
 func (a *appender) finish(hdrs []*tar.Header, initializing bool, eventType string) error {
 	if err := a.cleanup(&a.dirty); err != nil {
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index e4c73f2..d2f946b 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -142,7 +142,7 @@ func Index(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if isNoRecord(err) { // Skip over the file mark or torn record
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -182,7 +182,7 @@ func Index(
 
 			curr = int64(counter.BytesRead)
 
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil && !isNoRecord(err) {
 				return err
 			}
 
-- 
2.43.0


From c76f8b090b209f97ba8c12df25327aab37231c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 32/33] fix: keep links which are renamed to another spelling
 of their name

---
 pkg/fs/filesystem.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 3537089..e1a4329 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -877,14 +877,19 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	} else if err == sql.ErrNoRows {
 		// Replace existing links
-		if _, err := inventory.Stat(
+		if link, err := inventory.Stat(
 			f.metadata,
 
 			newname,
 			true,
 
 			f.onHeader,
-		); err == nil && newname != oldname {
+		); err == nil {
+			// Nothing to do
+			if link.Linkname == source.Linkname {
+				return nil
+			}
+
 			if err := f.removeWithoutLocking(newname); err != nil {
 				return err
 			}
-- 
2.43.0


From cb1ec1b70e0571814a93e83295d0f9cd875829e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 33/33] fix: index what has been appended to tape drives but
 could not be indexed by the call which appended it

---
 pkg/fs/filesystem.go         |  7 ++++++-
 pkg/operations/append.go     | 38 ++++++++++++++++++++++++------------
 pkg/operations/operations.go |  5 +++--
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index e1a4329..99fc420 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -297,7 +297,12 @@ func (f *STFS) indexWithoutLocking(indexed bool) (empty bool, err error) {
 			indexed, record, block = false, 0, 0
 		}
 	} else if indexed {
-		return false, nil
+		record, block, err = f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+		if err != nil {
+			return false, err
+		}
+
+		offset = 1 // Ignore the first header, which is the last header which we already indexed
 	} else {
 		mt := f.readOps.GetBackend().MagneticTapeIO
 
diff --git a/pkg/operations/append.go b/pkg/operations/append.go
index d7a4c77..fc7ca68 100644
--- a/pkg/operations/append.go
+++ b/pkg/operations/append.go
@@ -13,6 +13,13 @@ import (
 	"github.com/pojntfx/stfs/pkg/recovery"
 )
 
+// indexStart is the position of the last header which is known to be indexed
+type indexStart struct {
+	record int64
+	block  int64
+	offset int // Amount of headers to ignore
+}
+
 // appender appends one archive to the drive
 type appender struct {
 	o *Operations
@@ -22,10 +29,8 @@ type appender struct {
 	cleanup func(dirty *bool) error
 	dirty   bool
 
-	overwrite         bool
-	lastIndexedRecord int64
-	lastIndexedBlock  int64
-	offset            int
+	overwrite bool
+	start     indexStart
 
 	// Headers which have been written by previous operations, but could not be indexed by them
 	unindexed []*tar.Header
@@ -49,12 +54,12 @@ func (o *Operations) startAppending(overwrite bool) (*appender, error) {
 	missing := int64(0)
 	if !overwrite {
 		var err error
-		a.lastIndexedRecord, a.lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+		a.start.record, a.start.block, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
 		if err != nil {
 			return nil, err
 		}
 
-		a.offset = 1 // Ignore the first header, which is the last header which we already indexed
+		a.start.offset = 1 // Ignore the first header, which is the last header which we already indexed
 
 		if missing, err = a.inspectTail(); err != nil {
 			return nil, err
@@ -97,7 +102,7 @@ func (o *Operations) startAppending(overwrite bool) (*appender, error) {
 	return a, nil
 }
 
-// inspectTail prepares for appending to a regular drive on which the last write might not have been completed
+// inspectTail prepares for appending to a drive on which the last write might not have been completed or indexed
 func (a *appender) inspectTail() (missing int64, err error) {
 	reader, err := a.o.backend.GetReader()
 	if err != nil {
@@ -114,20 +119,24 @@ func (a *appender) inspectTail() (missing int64, err error) {
 	}()
 
 	if !reader.DriveIsRegular {
+		if len(a.o.unindexed) > 0 {
+			a.unindexed, a.start = a.o.unindexed, a.o.unindexedStart
+		}
+
 		return 0, nil
 	}
 
-	tail, err := recovery.InspectTail(reader, a.o.pipes, int(a.lastIndexedRecord), int(a.lastIndexedBlock))
+	tail, err := recovery.InspectTail(reader, a.o.pipes, int(a.start.record), int(a.start.block))
 	if err != nil {
 		return 0, err
 	}
 
 	if !tail.Reachable {
-		if a.lastIndexedRecord > 0 || a.lastIndexedBlock > 0 {
+		if a.start.record > 0 || a.start.block > 0 {
 			return 0, config.ErrIndexOutdated
 		}
 
-		a.offset = 0
+		a.start.offset = 0
 	}
 
 	if tail.Unindexed > len(a.o.unindexed) {
@@ -154,6 +163,8 @@ func (a *appender) rollback() {
 	_ = a.o.backend.CloseWriter()
 
 	if a.overwrite {
+		a.o.unindexed = nil
+
 		_ = a.o.metadata.Metadata.PurgeAllHeaders(context.Background())
 	}
 }
@@ -185,6 +196,7 @@ func (a *appender) finish(hdrs []*tar.Header, initializing bool, eventType strin
 
 	a.closed = true
 	a.o.unindexed = append(append([]*tar.Header{}, a.unindexed...), hdrs...)
+	a.o.unindexedStart = a.start
 
 	if err := a.o.backend.CloseWriter(); err != nil {
 		return err
@@ -215,11 +227,11 @@ func (a *appender) index(initializing bool, eventType string) error {
 		a.o.pipes,
 		a.o.crypto,
 
-		int(a.lastIndexedRecord),
-		int(a.lastIndexedBlock),
+		int(a.start.record),
+		int(a.start.block),
 		a.overwrite,
 		initializing,
-		a.offset,
+		a.start.offset,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index b23094b..5299ed0 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -20,8 +20,9 @@ type Operations struct {
 
 	diskOperationLock sync.Mutex
 
-	// Headers which have been written by the last operation, but could not be indexed
-	unindexed []*tar.Header
+	// Headers which have been written by the last operations, but could not be indexed, and where to start indexing them
+	unindexed      []*tar.Header
+	unindexedStart indexStart
 }
 
 func NewOperations(
-- 
2.43.0

