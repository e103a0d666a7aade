package main

import "golang.org/x/arch/x86/x86asm"

const (
	// branchLen is the length of the branch at the entry of a mocked function.
	branchLen = 12
	// maxEntry is the most that a mock may overwrite: the branch, rounded up to whole instructions.
	maxEntry = branchLen + 14
)

func entryProblem(code []byte, need int) string {
	pos := 0
	for pos < need {
		inst, err := x86asm.Decode(code[pos:], 64)
		if err != nil {
			return "undecodable"
		}
		switch inst.Op {
		case x86asm.RET:
			return "short"
		case x86asm.CALL, x86asm.JMP:
			return "pc-relative branch"
		}
		for _, a := range inst.Args {
			if m, ok := a.(x86asm.Mem); ok && m.Base == x86asm.RIP {
				return "pc-relative data"
			}
			if _, ok := a.(x86asm.Rel); ok && inst.Op != x86asm.JBE && inst.Op != x86asm.JB {
				return "pc-relative branch"
			}
		}
		pos += inst.Len
	}
	return ""
}
