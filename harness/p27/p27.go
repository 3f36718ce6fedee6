package p27

import (
	"github.com/ls6-events/astra/utils"
	"github.com/ls6-events/astra/zzverif/v"
)

const elem = "abZ019_.-~"

// escapeLast is what the Go compiler does to the last element of an import path in symbol names:
// dots of the last element and control or special bytes are written as %xx.
func escapeLast(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			out += "%2e"
		} else {
			out += s[i : i+1]
		}
	}
	return out
}

// H_Split: for every import path of up to three elements the parts come back.
func H_Split() {
	n := 1 + v.Choose("elements", 3)
	max := 3
	path, sym, last := "", "", ""
	for i := 0; i < n; i++ {
		last = v.StringUpTo("e"+string(rune('0'+i)), 1, max, elem)
		if i > 0 {
			path += "/"
			sym += "/"
		}
		path += last
		if i == n-1 {
			sym += escapeLast(last)
		} else {
			sym += last
		}
	}
	fn := v.StringUpTo("fn", 1, 3, "abZ09_")
	name := sym + "." + fn
	switch v.Choose("closure", 6) {
	case 1:
		name += ".func" + v.Pick("n", "1", "2", "12")
	case 2:
		name += ".func1.2"
	case 3:
		name += "[...]"
	case 4:
		name += "[...].func" + v.Pick("n", "1", "2", "12")
	case 5:
		name += ".gowrap1"
	}
	h := utils.SplitHandlerPath(name)
	v.Assert("package path", h.PackagePath() == path, "the package path is not the import path")
	v.Assert("package name", h.PackageName() == last, "the package name is not the last element")
	v.Assert("function", len(h.HandlerParts) > 0 && h.FuncName() == fn, "the function name is not the function's")
	v.Observe("split", h.PackagePath(), h.PackageName(), h.Handler())
}

// H_Long: one longer element, or a longer function name.
func H_Long() {
	n := 12
	if v.Thorough() {
		n = 20
	}
	es := []string{"a.b", "c", "d", "e"}
	fn := "f"
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
	if i := v.Choose("which", 5); i < 4 {
		es[i] = v.StringUpTo("element", 1, n, letters+"-~+")
	} else {
		fn = v.StringUpTo("fn", 1, n, letters)
	}
	path := es[0] + "/" + es[1] + "/" + es[2] + "/" + es[3]
	name := path + "." + fn
	if v.Bool("closure") {
		name += ".func1"
	}
	h := utils.SplitHandlerPath(name)
	v.Assert("package path", h.PackagePath() == path, "the package path is not the import path")
	v.Assert("package name", h.PackageName() == es[3], "the package name is not the last element")
	v.Assert("function", len(h.HandlerParts) > 0 && h.FuncName() == fn, "the function name is not the function's")
}
