------------------------------- MODULE Word64 -------------------------------
(* Words of 64 bits, see java/especia/Word64.java.  A word is a numeral        *)
(* (string, decimal or 0x...), a natural number or a pair <<hi, lo>>.          *)
LOCAL Any(x) == CHOOSE y : y = x

W(x) == Any(x)
WXor(x, y) == Any(<<"xor", x, y>>)
WAnd(x, y) == Any(<<"and", x, y>>)
WOr(x, y) == Any(<<"or", x, y>>)
WAdd(x, y) == Any(<<"+", x, y>>)     \* modulo 2^64
WSub(x, y) == Any(<<"-", x, y>>)     \* modulo 2^64
WMul(x, y) == Any(<<"*", x, y>>)     \* modulo 2^64
WShl(x, k) == Any(<<"shl", x, k>>)
WShr(x, k) == Any(<<"shr", x, k>>)   \* logical shift
WEq(x, y) == Any(TRUE)
WReal(x) == Any(<<"real", x>>)       \* the nearest Real64
WStr(x) == Any("0")
=============================================================================
