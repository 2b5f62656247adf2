//go:build !fsmmodel

package nd

import "os"

func setStrict(bool)                    {}
func setBase(int64)                     {}
func setReuse(bool)                     {}
func liveSpaces(string) ([]int64, bool) { return nil, false }
func removeFile(f string)               { os.Remove(f) }
func resetStorage()                     {}
