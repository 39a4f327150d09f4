package docx

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

func TestVerifC16(t *testing.T) {
	vRun(t, "C16", "decimal integers near every power of two and ten and random ones (signs, leading zeros, out of range), decimal fractions, and texts that are no number; compared with exact arithmetic; non-trivial: at least 16 digits, a fraction, or no number", func(h *vH) {
		var fixed []string
		for i := uint(0); i < 70; i++ {
			for d := int64(-2); d <= 2; d++ {
				b := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(d))
				fixed = append(fixed, b.String(), "-"+b.String(), "+"+b.String(), "00"+b.String(), b.String()+".0", b.String()+".75", "-"+b.String()+".5")
			}
		}
		fixed = append(fixed, "", " ", "-", "+", ".", "abc", "auto", "x1", "-x", "1.5", "-1.5", "0.999", "-0.999", "12pt", "3.7cm", "1e3", "1E2", "0x10", "1_000", "NaN", "Inf", "-Inf", "infinity", "1e30", "-1e30", "9223372036854775807.5", "--1", "+-1", " 5", "5 ", "0.0", "-0", "0b11", "0o7", "1e-5", "123456789012345.6", "99999999999999999999", "-99999999999999999999", "e5", "٣", "½")
		for n := 0; h.more(n, 20000); n++ {
			var s string
			if n < len(fixed) {
				s = fixed[n]
			} else {
				switch h.r.Intn(4) {
				case 0:
					s = strconv.FormatInt(int64(h.r.Uint64())>>uint(h.r.Intn(64)), 10)
				case 1:
					s = fmt.Sprintf("%d.%d", int64(h.r.Uint64())>>uint(h.r.Intn(64)), h.r.Intn(100000))
				case 2:
					s = h.str()
				default:
					al := "0123456789+-.eE_xXaf p%"
					for i := h.r.Intn(22); i > 0; i-- {
						s += string(al[h.r.Intn(len(al))])
					}
				}
			}
			vNumCase(h, s)
		}
	})
}

var (
	vIntRe  = regexp.MustCompile(`^[+-]?[0-9]+$`)
	vFracRe = regexp.MustCompile(`^([+-]?)([0-9]+)\.([0-9]+)$`)
)

func vNumCase(h *vH, s string) {
	h.evalCase("number", s, len(s) >= 16 || !vIntRe.MatchString(s), func() string {
		a, ea := GetInt64(s)
		b, eb := GetInt(s)
		if (ea == nil) != (eb == nil) || ea == nil && a != int64(b) {
			return fmt.Sprintf("readers disagree: %d %v, %d %v", a, ea, b, eb)
		}
		if vIntRe.MatchString(s) {
			v, _ := new(big.Int).SetString(s, 10)
			if v.IsInt64() {
				if ea != nil || v.Int64() != a {
					return fmt.Sprintf("read %d, %v", a, ea)
				}
			} else if ea == nil && new(big.Int).Abs(v).Cmp(new(big.Int).Lsh(big.NewInt(1), 63+1)) > 0 {
				return fmt.Sprintf("out of range but read as %d", a)
			}
			return ""
		}
		if m := vFracRe.FindStringSubmatch(s); m != nil {
			v, _ := new(big.Int).SetString(m[2], 10)
			if m[1] == "-" {
				v.Neg(v)
			}
			if len(strings.TrimLeft(m[2], "0"))+len(m[3]) <= 15 { // moderate size: exact in a float64
				if ea != nil || v.Int64() != a {
					return fmt.Sprintf("read %d, %v, want %v", a, ea, v)
				}
			}
			return ""
		}
		t := strings.TrimLeft(s, "+-")
		low := strings.ToLower(t)
		if (t == "" || !strings.ContainsAny(t[:1], "0123456789. ")) && low != "inf" && low != "nan" && low != "infinity" {
			if ea == nil {
				return fmt.Sprintf("no number but read as %d", a)
			}
		}
		if (low == "inf" || low == "nan" || low == "infinity") && ea == nil {
			return fmt.Sprintf("read as %d", a)
		}
		return ""
	})
}
