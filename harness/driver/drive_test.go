package driver

import "testing"

func TestDrive(t *testing.T) { Drive(t) }
