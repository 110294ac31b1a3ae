package drv

import "testing"

func TestDrv(t *testing.T) { Main(t) }
