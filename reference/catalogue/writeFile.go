package catalogue

import "os"

// writeFile replaces the contents of the file at path, or leaves it as it was if that fails or the
// process dies meanwhile. Callers must hold a mutex granting exclusive access.
func writeFile(path string, data []byte) error {
	temporary := path + ".tmp"
	err := os.WriteFile(temporary, data, 0664)
	if err == nil {
		err = os.Rename(temporary, path)
	}
	if err != nil {
		os.Remove(temporary)
	}
	return err
}
