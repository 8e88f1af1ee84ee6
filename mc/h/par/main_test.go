package parh

import (
	"os"
	"testing"

	"verif/mc/mc"
)

func TestVerif(t *testing.T) {
	if os.Getenv("VX_COLD") != "" {
		coldChild()
		return
	}
	mc.Main(t)
}
