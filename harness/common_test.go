package docx

// Harness shared by the property checks in /verif. It is compiled into package
// docx through "go test -overlay" and never lives in /repo.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vFail struct {
	Oracle string `json:"oracle"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type vH struct {
	ID       string         `json:"property"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct_nontrivial"`
	Rule     string         `json:"rule"`
	Samples  []string       `json:"samples"`
	Fails    []vFail        `json:"fails"`
	Oracles  map[string]int `json:"oracles"`
	r        *rand.Rand
	seen     map[uint64]bool
	thorough bool
	deadline time.Time
}

func vRun(t *testing.T, id, rule string, f func(h *vH)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &vH{ID: id, Rule: rule, r: rand.New(rand.NewSource(seed*7919 + 17)), seen: map[uint64]bool{},
		thorough: os.Getenv("VERIF_TIER") == "thorough", Oracles: map[string]int{}}
	budget := 6 * time.Second
	if h.thorough {
		budget = 120 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	h.deadline = time.Now().Add(budget)
	h.guard("harness", "(outside any case)", func() { f(h) })
	if out := os.Getenv("VERIF_OUT"); out != "" {
		b, _ := json.MarshalIndent(h, "", " ")
		_ = os.WriteFile(out, b, 0o644)
	}
	for _, x := range h.Fails {
		t.Errorf("%s: %s\ninput: %s", x.Oracle, x.Detail, x.Input)
	}
}

// guard runs fn and turns a panic into a failure of the oracle.
func (h *vH) guard(oracle, input string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			h.fail(oracle, input, fmt.Sprintf("panic: %v\n%s", e, st))
		}
	}()
	fn()
}

func (h *vH) fail(oracle, input, detail string) {
	if len(h.Fails) < 5 {
		if len(input) > 20000 {
			input = input[:20000] + "..."
		}
		h.Fails = append(h.Fails, vFail{oracle, input, detail})
	}
}

// evalCase counts one evaluation and runs it with panics reported.
func (h *vH) evalCase(oracle, input string, nontrivial bool, fn func() string) {
	h.Evals++
	h.Oracles[oracle]++
	if nontrivial {
		k := fnv.New64a()
		k.Write([]byte(oracle + "\x00" + input))
		if !h.seen[k.Sum64()] {
			h.seen[k.Sum64()] = true
			h.Distinct++
			if len(h.Samples) < 6 || (h.Distinct&(h.Distinct-1)) == 0 && len(h.Samples) < 12 {
				s := input
				if len(s) > 400 {
					s = s[:400] + "..."
				}
				h.Samples = append(h.Samples, oracle+": "+s)
			}
		}
	}
	if cur := os.Getenv("VERIF_OUT"); cur != "" {
		_ = os.WriteFile(cur+".cur", []byte(oracle+"\n"+input), 0o644)
	}
	h.guard(oracle, input, func() {
		if d := fn(); d != "" {
			h.fail(oracle, input, d)
		}
	})
}

func (h *vH) more(n, limit int) bool {
	if len(h.Fails) >= 3 {
		return false
	}
	if h.thorough {
		limit *= 20
	}
	return n < limit && time.Now().Before(h.deadline)
}

var vStrPool = []string{"", "a", "b", "x y", " lead", "trail ", "<&>\"'", "图片 1", "0", "1", "-3", "rId1", "media/x.png",
	"longer piece of text", "tab\tin", "nl\nin", "café", "#", "auto", "]]>", "&amp;", "single"}

func (h *vH) str() string {
	s := vStrPool[h.r.Intn(len(vStrPool))]
	if h.r.Intn(4) == 0 {
		s += vStrPool[h.r.Intn(len(vStrPool))]
	}
	return s
}

func (h *vH) int64() int64 {
	switch h.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -int64(h.r.Intn(100000))
	case 3:
		return h.r.Int63()
	}
	return int64(h.r.Intn(1000000))
}

// dump renders a value tree deterministically, ignoring file and XMLName.
func vDump(v interface{}) string {
	var sb strings.Builder
	vDumpV(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func vDumpV(sb *strings.Builder, v reflect.Value, d int) {
	if d > 60 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		vDumpV(sb, v.Elem(), d+1)
	case reflect.Interface:
		vDumpV(sb, v.Elem(), d+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Name == "XMLName" {
				continue
			}
			if v.Field(i).IsZero() {
				continue
			}
			if v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() == 0 {
				continue
			}
			sb.WriteString(f.Name + ":")
			vDumpV(sb, v.Field(i), d+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			vDumpV(sb, v.Index(i), d+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Int, reflect.Int64, reflect.Int32:
		fmt.Fprintf(sb, "%d", v.Int())
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	case reflect.Uint, reflect.Uintptr, reflect.Uint64, reflect.Uint8:
		fmt.Fprintf(sb, "%d", v.Uint())
	default:
		fmt.Fprintf(sb, "<%s>", v.Kind())
	}
}

func vDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 120
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 120
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("differ at byte %d:\n want ...%s...\n got  ...%s...", i, cut(a), cut(b))
}
