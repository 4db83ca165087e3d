package vk

import (
	"runtime"
	"time"
)

// Settle waits until the number of goroutines becomes n or less.
func Settle(n int) int {
	cur := 0
	for i := 0; i < 400; i++ {
		if cur = runtime.NumGoroutine(); cur <= n {
			return cur
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return cur
}
