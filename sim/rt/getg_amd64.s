#include "textflag.h"

// func getg() uintptr
TEXT ·getg(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ ·goidOff(SB), BX
	MOVQ (AX)(BX*1), AX
	MOVQ AX, ret+0(FP)
	RET
