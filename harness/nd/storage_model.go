//go:build fsmmodel

package nd

import "github.com/roy2220/fsm"

func setStrict(on bool)                   { fsm.ModelStrict(on) }
func setReuse(on bool)                    { fsm.ModelReuse(on) }
func setBase(a int64)                     { fsm.ModelBase(a) }
func liveSpaces(f string) ([]int64, bool) { return fsm.ModelLiveSpaces(f) }
func removeFile(f string)                 { fsm.ModelRemove(f) }
func resetStorage()                       { fsm.ModelReset() }
