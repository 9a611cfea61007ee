package main

import (
	"os"
	"strconv"
)

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

func (e *Engine) envKnobs() {
	e.exactCap = envInt("SA_EXACT", e.exactCap)
	e.shapeCap = envInt("SA_SHAPE", e.shapeCap)
	e.ctxDepth = envInt("SA_CTX", e.ctxDepth)
	e.coarsePtr = envInt("SA_COARSE", 0) == 1
}
