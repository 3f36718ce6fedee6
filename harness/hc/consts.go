package hc

import "github.com/ls6-events/astra/zzverif/v"

// Integers and Texts are how many forms Integer and Text know.
const (
	Integers = 14
	Texts    = 13
)

func digit(c byte) int {
	switch {
	case c >= 'a':
		return int(c-'a') + 10
	case c >= 'A':
		return int(c-'A') + 10
	}
	return int(c - '0')
}

func Number(s string, base int) (n int) {
	for i := 0; i < len(s); i++ {
		n = n*base + digit(s[i])
	}
	return n
}

// Integer is any constant integer expression and its value.
func Integer(id string, form int) (string, int) {
	switch form {
	case 0:
		s := v.String(id, 3, "24059")
		v.Assume(s[0] != '0')
		return s, Number(s, 10)
	case 1:
		s := v.String(id, 2, "09cF")
		return "0x" + s, Number(s, 16)
	case 2:
		s := v.String(id, 2, "07")
		return "0o3" + s, 192 + Number(s, 8)
	case 3:
		s := v.String(id, 2, "07")
		return "03" + s, 192 + Number(s, 8)
	case 4:
		s := v.String(id, 4, "01")
		return "0b1100" + s, 192 + Number(s, 2)
	case 5:
		s := v.String(id, 2, "05")
		return "2_" + s, 200 + Number(s, 10)
	case 6:
		s := v.String(id, 1, "aZ~")
		return "'" + s + "'", int(s[0])
	case 7:
		s := v.Pick(id, "0", "2", "4")
		return s + "e2", Number(s, 10) * 100
	case 8:
		s := v.Pick(id, "00", "04", "50")
		return "2" + s + ".0", 200 + Number(s, 10)
	case 9:
		s := v.String(id, 1, "024")
		return "100*2 + " + s, 200 + Number(s, 10)
	case 10:
		s := v.String(id, 1, "0129")
		return "int(" + s + ")", Number(s, 10)
	case 11:
		s := v.String(id, 1, "149")
		return "(-" + s + ")", -Number(s, 10)
	case 12:
		s := v.String(id, 1, "0124")
		return "1 << " + s, 1 << uint(Number(s, 10))
	default:
		s := v.String(id, 1, "149")
		return "len(\"abc\") + int(uint8(" + s + "))", 3 + Number(s, 10)
	}
}

// Text is any constant string expression and its value.
func Text(id string, form int) (string, string) {
	switch form {
	case 0:
		s := v.StringUpTo(id, 0, 2, "aZ0 -_.`'/[]%")
		return "\"" + s + "\"", s
	case 1:
		s := v.StringUpTo(id, 0, 2, "aZ0 -_.\"'\\n/%")
		return "`" + s + "`", s
	case 2:
		s := v.String(id, 1, "abfnrtv\\\"")
		return "\"-\\" + s + "-\"", "-" + escape(s[0]) + "-"
	case 3:
		s := v.String(id, 2, "0179aF")
		return "\"\\x" + s + "\"", string([]byte{byte(Number(s, 16))})
	case 4:
		s := v.String(id, 2, "0157")
		return "\"\\1" + s + "\"", string([]byte{byte(64 + Number(s, 8))})
	case 5:
		s := v.String(id, 2, "02aF")
		return "\"\\u00" + s + "\"", latin(Number(s, 16))
	case 6:
		s := v.String(id, 2, "02aF")
		return "\"\\U000000" + s + "\"", latin(Number(s, 16))
	case 7:
		s, t := v.String(id+".1", 1, "ab"), v.String(id+".2", 1, "ab")
		return "\"" + s + "\" + \"" + t + "\"", s + t
	case 8:
		s := v.String(id, 1, "ab")
		return "(\"" + s + "\")", s
	case 9:
		s := v.String(id, 1, "ab")
		return "string(Str(\"" + s + "\"))", s
	case 10:
		s := v.String(id, 1, "ab")
		return "`" + s + "` + \"\\t\" + `\\`", s + "\t\\"
	case 11:
		return "\"h\u00e9\u4e16\"", "h\u00e9\u4e16"
	default:
		s := v.String(id, 1, "AB")
		return "string('" + s + "')", s
	}
}

func escape(c byte) string {
	switch c {
	case 'a':
		return "\a"
	case 'b':
		return "\b"
	case 'f':
		return "\f"
	case 'n':
		return "\n"
	case 'r':
		return "\r"
	case 't':
		return "\t"
	case 'v':
		return "\v"
	}
	return string([]byte{c})
}

// latin is the UTF-8 encoding of a code point below 256.
func latin(n int) string {
	if n < 128 {
		return string([]byte{byte(n)})
	}
	return string([]byte{byte(0xc0 + n/64), byte(0x80 + n%64)})
}
