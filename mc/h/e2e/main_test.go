package e2eh

import (
	"testing"

	"verif/mc/mc"
)

func TestVerif(t *testing.T) { mc.Main(t) }
