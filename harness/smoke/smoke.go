package smoke

import (
	"strings"
	"sync"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

func T1() {
	x := vx.Int("x")
	y := vx.Int("y")
	vx.Assume(x > 0 && x < 1000 && y > 0 && y < 1000)
	z := x + y
	if z == 1234 && x == 777 {
		vx.Assert(y != 457, "boom")
	}
	vx.Assert(z > x, "gt")
	s := vx.String("s", 4)
	if strings.HasPrefix(s, "ab") && len(s) == 4 {
		vx.Assert(s[2:] != "cd", "abcd")
	}
}

func T2() {
	var mu sync.Mutex
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			t := n
			mu.Unlock()
			mu.Lock()
			n = t + 1
			mu.Unlock()
		}()
	}
	wg.Wait()
	vx.Assert(n == 2, "lost update")
}
