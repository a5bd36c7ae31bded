//go:build !vy

package drv

func vySetup(mode int, seed uint64, scale int64, every uint64) {}
