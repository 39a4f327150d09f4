# shared definitions
#
# what strconv reads from a string: whether it is accepted and the value
//@ def atoi_ok(s string) bool = uf("atoi_ok", "bool", s)
//@ def atoi_val(s string) int64 = uf("atoi_val", "int64", s)
//@ def atou_ok(s string) bool = uf("atou_ok", "bool", s)
//@ def atou_val(s string) uint64 = uf("atou_val", "uint64", s)
//@ def atof_ok(s string) bool = uf("atof_ok", "bool", s)
//@ def atof_val(s string) float64 = uf("atof_val", "float64", s)
//@ def scan_ok(s string, f string) bool = uf("scan_ok", "bool", s, f)
//@ def scan_val(s string, f string) int64 = uf("scan_val", "int64", s, f)
# what the image decoder reads from the bytes of an image
//@ def img_ok(b []byte) bool = uf("img_ok", "bool", b)
//@ def img_w(b []byte) int = uf("img_w", "int", b)
//@ def img_h(b []byte) int = uf("img_h", "int", b)
//@ def img_fmt(b []byte) string = uf("img_fmt", "string", b)
