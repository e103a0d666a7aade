package main

import (
	"encoding/binary"

	"golang.org/x/arch/arm64/arm64asm"
)

const (
	branchLen = 24
	maxEntry  = branchLen
)

func entryProblem(code []byte, need int) string {
	prev := uint32(0)
	for pos := 0; pos < need; pos += 4 {
		w := binary.LittleEndian.Uint32(code[pos:])
		inst, err := arm64asm.Decode(code[pos:])
		if err != nil {
			return "undecodable"
		}
		switch inst.Op {
		case arm64asm.RET:
			if pos+4 < need {
				return "short"
			}
		case arm64asm.BL, arm64asm.BR:
			return "pc-relative branch"
		}
		for _, a := range inst.Args {
			if _, ok := a.(arm64asm.PCRel); !ok {
				continue
			}
			// the stack check: b.ls behind cmp sp, x16 or cmp x17, x16
			if w&0xff00001f == 0x54000009 && (prev == 0xeb3063ff || prev == 0xeb10023f) {
				continue
			}
			return "pc-relative"
		}
		prev = w
	}
	return ""
}
