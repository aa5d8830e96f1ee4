package sruntime

import "vsa/zsim/rt"

func GOMAXPROCS(n int) int {
	if rt.S == nil {
		return 8
	}
	return rt.S.Cfg.Procs
}
func NumCPU() int       { return GOMAXPROCS(0) }
func NumGoroutine() int { return len(rt.CurProc().LiveTasks()) }
func Gosched()          { rt.Sleep(1) }

// ProcPin stands for the linknamed runtime.procPin.
func ProcPin() int {
	rt.Y()
	if t := rt.Cur(); t != nil {
		// a goroutine migrates between Ps now and then
		if rt.Rand("procpin")%8 == 0 {
			t.P = int(rt.Rand("procpin.p") % uint64(GOMAXPROCS(0)))
		}
		return t.P
	}
	return 0
}
func ProcUnpin() {}
