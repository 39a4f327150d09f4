# C16: numbers in attributes are read with their value or rejected
#
# decimal: the text is a decimal fraction whose integer part is in range; both readers use the same definitions
//@ def inRange(f float64) bool = isfin(f) && real(f) >= real(-9223372036854775808) && real(f) < real(9223372036854775808)
//@ def decimal(s string) bool = !atoi_ok(s) && atof_ok(s) && inRange(atof_val(s))
//@ def numeric(s string) bool = atoi_ok(s) || decimal(s) || !atoi_ok(s) && !atof_ok(s) && scan_ok(s, "%d")
//@ def numVal(s string) int64 = cond(atoi_ok(s), atoi_val(s), cond(decimal(s), trunc(atof_val(s)), scan_val(s, "%d")))

//@ func GetInt64(s) (v, err) [C16 C01]
//@ modifies nothing
//@ ensures atoi_ok(s) ==> err == nil && v == atoi_val(s)
//@ ensures decimal(s) ==> err == nil && v == trunc(atof_val(s))
//@ ensures (err == nil) == numeric(s)
//@ ensures err == nil ==> v == numVal(s)

//@ func GetInt(s) (v, err) [C16 C01]
//@ modifies nothing
//@ ensures atoi_ok(s) ==> err == nil && v == atoi_val(s)
//@ ensures decimal(s) ==> err == nil && v == trunc(atof_val(s))
//@ ensures (err == nil) == numeric(s)
//@ ensures err == nil ==> v == numVal(s)
