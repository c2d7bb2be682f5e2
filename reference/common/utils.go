package common

import (
	"crypto/sha1"
	"fmt"
	"io"
	"os"
)

// HashFile returns a 20-byte slice representing the sha1 hash of the file's contents or an error.
// TODO: come up with some sort of async/progress-bar method because at 500mbps of disk throughput
// this could take 10 seconds for a 5GB file, and 1.5 minutes for a 50GB file.
func HashFile(path string) (*Sha1Hash, error) {
	f, err := OpenFile(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	hash := sha1.New()
	hashBuffer := make([]byte, 4096) // A reasonably-recent mac's block size

	for {
		bytesRead, err := f.Read(hashBuffer)
		if bytesRead > 0 {
			wrote, err := hash.Write(hashBuffer[:bytesRead])
			if err != nil {
				return nil, err
			}
			if wrote != bytesRead {
				return nil, fmt.Errorf("internal error writing to hash")
			}
		}

		if err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		// else do nothing
	}

	return (&Sha1Hash{}).FromSlice(hash.Sum(nil)), nil
}

// OpenFile opens a regular file for reading. Anything else is an error: opening or reading a named
// pipe or a device may never return.
func OpenFile(path string) (*os.File, error) {
	info, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	if !info.Mode().IsRegular() {
		return nil, fmt.Errorf("%s is not a regular file", path)
	}
	return os.Open(path)
}

func failHard(err error) {
	if err != nil {
		panic(err)
	}
}
