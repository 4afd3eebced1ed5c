-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of characters, see java/especia/Text.java.             *)
LOCAL Any(x) == CHOOSE y : y = x
Chars(s) == Any(<<s>>)               \* the sequence of one-character strings
Str(cs) == Any("")                   \* the concatenation
IsNumber(s) == Any(TRUE)             \* s is a floating-point numeral
IsNatural(s) == Any(TRUE)            \* s is a sequence of digits
=============================================================================
