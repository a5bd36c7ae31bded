//go:build vy

package drv

import zz_vy "github.com/muguangyi/ferry/zz_vy"

func vySetup(mode int, seed uint64, scale int64, every uint64) {
	if mode != 0 {
		zz_vy.Setup(mode, seed, scale, every)
	}
}
