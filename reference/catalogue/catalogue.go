package catalogue

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/flu-network/client/common"
)

// Cat is a wrapper around the on-disk catalogue data for Flu clients. There should only be one
// cat per physical computer, and a single process accessing the cat files at any time. A cat
// consists of an index file (index.json) and several progress files (each named after the sha1
// hash of the files whose progress is being tracked).
// Most file-system access should be performed with a mutex lock. Public methods simply acquire
// the lock and then call private methods that assume the lock exists.
type Cat struct {
	DataDir             string
	DefaultDownloadsDir string
	indexFile           *indexFile
	lock                sync.Mutex
}

// NewCat returns a Cat struct, initialized to the given data directory
func NewCat(dir, downloadsDir string) (*Cat, error) {
	cleanPath, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}

	cleanDownloadsDir, err := filepath.Abs(downloadsDir)
	if err != nil {
		return nil, err
	}
	return &Cat{
		DataDir:             cleanPath,
		DefaultDownloadsDir: cleanDownloadsDir,
		indexFile:           nil,
		lock:                sync.Mutex{},
	}, nil
}

// Init initializes or attempts to acquire an exclusive user-space lock on the on-disk catalogue
// data. Returns a descriptive error if unable to acquire a lock. This should be called before
// invoking any other methods on Cat. Note, this lock is different from a mutex. Our user-space
// lock indicates that the process is unique, not that this thread has exclusive access to some
// resource.
func (c *Cat) Init() error {
	c.lock.Lock()
	defer c.lock.Unlock()

	c.indexFile = &indexFile{}
	err := c.indexFile.Init(c.DataDir)
	if err != nil {
		return err
	}
	return nil
}

// ShareFile generates an IndexRecord for the given filepath (unless an identical file has
// already been shared) and refreshes the inderlying indexFile. Sharing a file assumes that the
// file has been downloaded completely.
func (c *Cat) ShareFile(path string) (*indexRecord, error) {
	record, err := generateIndexRecordForFile(path) // can take long and needs no exclusive access
	if err != nil {
		return nil, err
	}

	c.lock.Lock()
	defer c.lock.Unlock()

	record.ProgressFile = newProgressFile(record, c.DataDir)
	record.ProgressFile.progress.Fill()
	err = c.indexFile.AddIndexRecord(record)
	if err != nil {
		return nil, err
	}

	return record, nil
}

// UnshareFile immediately deletes all references to it from flu's index. Any transfers in progress
// will throw errors and stop. The actual file is not affected in any way.
func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
	c.lock.Lock()
	defer c.lock.Unlock()

	rec, err := c.getIndexRecord(hash)
	if err != nil {
		return err
	}

	err = c.indexFile.RemoveIndexRecord(rec)
	if err != nil {
		return err
	}

	rec.ProgressFile.delete() // best effort: nothing refers to it any more
	return nil
}

// RegisterDownload creates a record of the download in flu's index. This is identical to
// c.ShareFile except that the progress file will register an empty bitset.
func (c *Cat) RegisterDownload(
	sizeInBytes uint64,
	chunkCount uint32,
	chunkSizeInBytes uint32,
	sha1Hash *common.Sha1Hash,
	filename string,
) (*IndexRecordExport, error) {
	c.lock.Lock()
	defer c.lock.Unlock()

	// all of this was sent to us by a peer
	if sizeInBytes > math.MaxInt64 || chunkSizeInBytes == 0 ||
		(sizeInBytes > 0 && (sizeInBytes-1)/uint64(chunkSizeInBytes) > math.MaxUint16) {
		return nil, fmt.Errorf("cannot download %d bytes in chunks of %d",
			sizeInBytes, chunkSizeInBytes)
	}
	if filename == "" || filename == "." || filename == ".." ||
		strings.ContainsAny(filename, "/\x00") || filepath.Base(filename) != filename {
		return nil, fmt.Errorf("cannot download to a file named %q", filename)
	}

	err := os.MkdirAll(c.DefaultDownloadsDir, os.ModePerm)
	if err != nil {
		return nil, err
	}

	filePath, err := c.unusedPath(filename)
	if err != nil {
		return nil, err
	}

	indexRecord := indexRecord{
		FilePath:     filePath,
		SizeInBytes:  int64(sizeInBytes),
		Sha1Hash:     *sha1Hash,
		ProgressFile: nil,
		ChunkSize:    int(chunkSizeInBytes),
	}

	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
	err = c.indexFile.AddIndexRecord(&indexRecord)
	if err != nil {
		return nil, err
	}

	return indexRecord.export(), nil
}

// unusedPath returns a path in the downloads directory at which there is no file, and at which no
// other download will create one. It is named like filename, if possible.
func (c *Cat) unusedPath(filename string) (string, error) {
	taken := map[string]bool{}
	for _, rec := range c.indexFile.index {
		taken[rec.FilePath] = true
	}

	path := filepath.Join(c.DefaultDownloadsDir, filename)
	extension := filepath.Ext(filename)
	for i := 1; ; i++ {
		_, err := os.Lstat(path)
		if err != nil && !os.IsNotExist(err) {
			return "", err // e.g. the name is too long
		}
		if err != nil && !taken[path] {
			return path, nil
		}
		name := fmt.Sprintf("%s (%d)%s", strings.TrimSuffix(filename, extension), i, extension)
		path = filepath.Join(c.DefaultDownloadsDir, name)
	}
}

// ListFiles lists the files that exist in the catalogue. Not all indexed files have been downloaded
// in their entirety. The result is a deep copy of the underlying catalogue data, so mutating it is
// okay.
func (c *Cat) ListFiles() ([]IndexRecordExport, error) {
	c.lock.Lock()
	defer c.lock.Unlock()

	result := make([]IndexRecordExport, 0, len(c.indexFile.index))

	for _, rec := range c.indexFile.index {
		if rec.ProgressFile == nil {
			p, err := deserializeProgressFile(rec, c.DataDir)
			if err != nil {
				return nil, err
			}
			rec.ProgressFile = p
		}
		result = append(result, *rec.export())
	}

	return result, nil
}

// Rehash attempts to recalculate the hash for a given indexRecord. If it fails, a blank hash and an
// error are returned.
func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
	c.lock.Lock()
	rec, err := c.getIndexRecord(hash)
	c.lock.Unlock() // hashing can take long and needs no exclusive access
	if err != nil {
		return (&common.Sha1Hash{}).Blank(), err
	}
	currentHash, err := common.HashFile(rec.FilePath)
	if err != nil {
		return (&common.Sha1Hash{}).Blank(), err
	}
	return currentHash, nil
}

// Contains returns the IndexRecordExport of the file specified by the hash, or an error if the file
// cannot be accessed for any reason.
func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.contains(hash)
}

func (c *Cat) contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
	record, err := c.getIndexRecord(hash)
	if err != nil {
		return nil, err
	}
	return record.export(), nil
}

// Get is the same as contains, except that if the record does not exist it will panic.
func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
	c.lock.Lock()
	defer c.lock.Unlock()
	result, err := c.contains(hash)
	if err != nil {
		panic(err)
	}
	return result
}

// FileComplete returns true if all chunks of the file are available, and false if any is missing or
// the file is not in the catalogue.
func (c *Cat) FileComplete(hash *common.Sha1Hash) bool {
	c.lock.Lock()
	defer c.lock.Unlock()
	ir, err := c.getIndexRecord(hash)
	if err != nil {
		return false
	}
	return ir.ProgressFile.Full()
}

// MissingChunks returns a list of ranges of missing chunks for the given hash. The list is empty if
// the file is not in the catalogue.
func (c *Cat) MissingChunks(hash *common.Sha1Hash, maxCount int) []common.Range {
	c.lock.Lock()
	defer c.lock.Unlock()
	ir, err := c.getIndexRecord(hash)
	if err != nil {
		return nil
	}
	return ir.ProgressFile.progress.UnfilledRanges()
}

func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error {
	c.lock.Lock()
	defer c.lock.Unlock()
	ir, err := c.getIndexRecord(hash)
	if err != nil {
		return err
	}

	err = ir.saveChunk(int64(chunk), data)
	if err != nil {
		return err
	}

	had := ir.ProgressFile.progress.Get(uint64(chunk))
	ir.ProgressFile.Set(uint64(chunk))
	err = ir.ProgressFile.save()
	if err != nil && !had {
		ir.ProgressFile.Unset(uint64(chunk))
	}
	return err
}

func (c *Cat) GetChunkReader(hash *common.Sha1Hash, chunk int64) (*common.ChunkReader, error) {
	c.lock.Lock()
	defer c.lock.Unlock()
	ir, err := c.getIndexRecord(hash)
	if err != nil {
		return nil, err
	}
	return ir.getChunkReader(chunk)
}

func (c *Cat) getIndexRecord(hash *common.Sha1Hash) (*indexRecord, error) {
	if record, found := c.indexFile.index[*hash]; found {
		result, err := c.fill(record)
		return result, err
	}
	return nil, fmt.Errorf("file not found")
}

func (c *Cat) fill(rec *indexRecord) (*indexRecord, error) {
	if rec.ProgressFile == nil {
		p, err := deserializeProgressFile(rec, c.DataDir)
		if err != nil {
			return rec, err
		}
		rec.ProgressFile = p
	}
	return rec, nil
}
