package checks

import (
	"testing"

	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }
