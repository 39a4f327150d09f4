package docx

import (
	"encoding/xml"
	"reflect"
	"testing"
)

func TestVerifC01(t *testing.T) {
	vRun(t, "C01", "random trees of every modelled type, encoded and decoded again; non-trivial = at least one nested element or attribute", func(h *vH) {
		for n := 0; h.more(n, 4000); n++ {
			b := Body{}
			h.gen(reflect.ValueOf(&b).Elem(), 4+h.r.Intn(20))
			vRoundTrip(h, &b, &Body{})
		}
	})
}

func vRoundTrip(h *vH, in, out interface{}) {
	x, err := xml.Marshal(in)
	if err != nil {
		h.fail("encode", vDump(in), err.Error())
		return
	}
	h.evalCase("decode(encode(x))==x", string(x), len(x) > 30, func() string {
		if err := xml.Unmarshal(x, out); err != nil {
			return "decode: " + err.Error()
		}
		a, b := vDump(in), vDump(out)
		if a != b {
			return vDiff(a, b)
		}
		return ""
	})
}
