package main

func assumptions(prop string) []string {
	out := []string{
		"the reference reading of RFC 4506/1057/1813 in mc/ref and spec/ is right",
		"the Go toolchain compiles the code under test as it does in use",
	}
	switch prop {
	case "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P22", "P23", "P27":
		out = append(out, "a single Write call of the transport is atomic and Read returns bytes in order, as net.Conn documents",
			"statements of the code under test interleave sequentially consistently; effects of races inside one statement, or of weak memory, are not explored")
	}
	return out
}
