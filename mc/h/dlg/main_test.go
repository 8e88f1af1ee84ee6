package dlgh

import (
	"testing"

	"verif/mc/mc"
)

func TestVerif(t *testing.T) { mc.Main(t) }
