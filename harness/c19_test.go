package docx

import (
	"fmt"
	"sync"
	"testing"
)

func TestVerifC19(t *testing.T) {
	vRun(t, "C19", "goroutines drawing numbers from shared and own counters of one document at the same time, under the race detector; non-trivial: at least two goroutines share a name", func(h *vH) {
		for n := 0; h.more(n, 60); n++ {
			vRaceCase(h)
		}
	})
}

func vRaceCase(h *vH) {
	g := 2 + h.r.Intn(7)
	per := 1 + h.r.Intn(200)
	d := New()
	if h.r.Intn(2) == 0 {
		var err error
		d, err = vOpen(vMakeZip(vPack("<w:p/>", nil, nil, nil)))
		if err != nil {
			h.fail("open", "", err.Error())
			return
		}
	}
	names := []string{"x", "y"}[:1+h.r.Intn(2)]
	h.evalCase("concurrent counting", fmt.Sprintf("%d goroutines, %d calls each, names %v", g, per, names), true, func() string {
		var wg sync.WaitGroup
		got := make([]map[string][]uintptr, g)
		start := make(chan struct{})
		for i := 0; i < g; i++ {
			got[i] = map[string][]uintptr{}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for k := 0; k < per; k++ {
					n := names[(i+k)%len(names)]
					got[i][n] = append(got[i][n], d.IncreaseID(n))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, n := range names {
			seen := map[uintptr]bool{}
			var max uintptr
			for i := range got {
				for k, v := range got[i][n] {
					if seen[v] {
						return fmt.Sprintf("%q gave %d twice", n, v)
					}
					seen[v] = true
					if k > 0 && v <= got[i][n][k-1] {
						return fmt.Sprintf("%q went from %d to %d in one goroutine", n, got[i][n][k-1], v)
					}
					if v > max {
						max = v
					}
				}
			}
			if int(max) != len(seen) {
				return fmt.Sprintf("%q: %d numbers up to %d", n, len(seen), max)
			}
		}
		return ""
	})
}
